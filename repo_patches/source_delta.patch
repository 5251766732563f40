From 7432dac97f556667197a7f58b71506b0a820cf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:49 +0000
Subject: [PATCH 1/3] fix: refuse a neutral salt point in the buffered strong
 AuCPace client

generate_cpace_alloc already returned IllegalPointError when the unblinded
salt point is the neutral element; generate_cpace continued the handshake
with it, letting the server choose a known salt.
---
 aucpace/src/client.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aucpace/src/client.rs b/aucpace/src/client.rs
index 1ef7bfc..2bf3e81 100644
--- a/aucpace/src/client.rs
+++ b/aucpace/src/client.rs
@@ -670,7 +670,13 @@ where
         // I have interpreted this as the multiplicative inverse of (r * cj^2)
         // then multiplied by cj again.
         let exponent = (self.blinding_value * cofactor * cofactor).invert() * cofactor;
-        let salt = (blinded_salt * exponent).compress().to_bytes();
+
+        // check if the salt point is the neutral element
+        let salt_point = blinded_salt * exponent;
+        if salt_point.is_identity() {
+            return Err(Error::IllegalPointError);
+        }
+        let salt = salt_point.compress().to_bytes();
         let salt_string = SaltString::encode_b64(&salt).map_err(Error::PasswordHashing)?;
 
         // compute the PRS
-- 
2.43.0


From 930042c13092c0925314f59ea504caab415c28cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:31 +0000
Subject: [PATCH 2/3] fix: report the same decoy public key on every attempt

For a username without a stored long term keypair the partially augmented
server generated a fresh random public key per request while registered
users always get their stored one, so asking twice revealed whether the
user exists. Derive it from the server secret and the username instead.
---
 aucpace/src/server.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/aucpace/src/server.rs b/aucpace/src/server.rs
index 6e66b94..130ff51 100644
--- a/aucpace/src/server.rs
+++ b/aucpace/src/server.rs
@@ -262,9 +262,10 @@ where
             // generate the prs and client message
             self.generate_prs(user, database, &mut rng, x, x_pub)
         } else {
-            // if the user does not have a keypair stored then we generate a random point on the
-            // curve to be the public key, and handle the failed lookup as normal
-            let x_pub = RistrettoPoint::random(&mut rng);
+            // if the user does not have a keypair stored then we derive a point on the curve to be
+            // the public key, it has to be the same on every attempt just like a stored one, and
+            // handle the failed lookup as normal
+            let x_pub = self.decoy_public_key(user);
             self.lookup_failed(user, x_pub, &mut rng)
         };
         let next_step = AuCPaceServerCPaceSubstep::new(self.ssid, prs, rng);
@@ -357,9 +358,10 @@ where
             // generate the prs and client message
             self.generate_prs_strong(user, blinded, database, &mut rng, x, x_pub)?
         } else {
-            // if the user does not have a keypair stored then we generate a random point on the
-            // curve to be the public key, and handle the failed lookup as normal
-            let x_pub = RistrettoPoint::random(&mut rng);
+            // if the user does not have a keypair stored then we derive a point on the curve to be
+            // the public key, it has to be the same on every attempt just like a stored one, and
+            // handle the failed lookup as normal
+            let x_pub = self.decoy_public_key(user);
             self.lookup_failed_strong(user, blinded, x_pub, &mut rng)?
         };
         let next_step = AuCPaceServerCPaceSubstep::new(self.ssid, prs, rng);
@@ -434,6 +436,23 @@ where
         }
     }
 
+    /// Derive the long term public key reported for users without a stored keypair
+    ///
+    /// It only depends on the server secret and the username, so that repeated requests for the
+    /// same user are answered with the same key, as they are for users with a stored keypair.
+    #[cfg(feature = "partial_augmentation")]
+    fn decoy_public_key(&self, username: &[u8]) -> RistrettoPoint {
+        // the outer hash keeps the key independent of the decoy salt, which is derived from
+        // the hash of the server secret and the user's name
+        let mut inner: D = Default::default();
+        inner.update(self.secret.0.to_le_bytes());
+        inner.update(username);
+        let mut outer: D = Default::default();
+        outer.update(self.secret.0.to_le_bytes());
+        outer.update(inner.finalize());
+        RistrettoPoint::from_hash(outer)
+    }
+
     /// Generate the message for if the lookup failed
     fn lookup_failed<CSPRNG>(
         &self,
-- 
2.43.0


From 5a63482dc468897f10f348a9bcb5612a86cfe211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:26 +0000
Subject: [PATCH 3/3] fix: serialize usernames as byte strings, as they are
 deserialized

---
 aucpace/src/client.rs |  9 +++++++--
 aucpace/src/utils.rs  | 12 +++++++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/aucpace/src/client.rs b/aucpace/src/client.rs
index 2bf3e81..81cfc96 100644
--- a/aucpace/src/client.rs
+++ b/aucpace/src/client.rs
@@ -27,7 +27,7 @@ use crate::utils::H1;
 extern crate alloc;
 
 #[cfg(feature = "serde")]
-use crate::utils::{serde_paramsstring, serde_saltstring};
+use crate::utils::{serde_paramsstring, serde_saltstring, serde_serialize_bytes};
 
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
@@ -994,13 +994,16 @@ pub enum ClientMessage<'a, const K1: usize> {
     Nonce(#[cfg_attr(feature = "serde", serde(with = "serde_byte_array"))] [u8; K1]),
 
     /// Username - the client's username
-    Username(&'a [u8]),
+    Username(
+        #[cfg_attr(feature = "serde", serde(serialize_with = "serde_serialize_bytes"))] &'a [u8],
+    ),
 
     /// StrongUsername - the strong `AuCPace` username message
     /// also contains the blinded point `U`
     #[cfg(feature = "strong_aucpace")]
     StrongUsername {
         /// The client's username
+        #[cfg_attr(feature = "serde", serde(serialize_with = "serde_serialize_bytes"))]
         username: &'a [u8],
         /// The blinded point `U`
         blinded: RistrettoPoint,
@@ -1016,6 +1019,7 @@ pub enum ClientMessage<'a, const K1: usize> {
     /// NOTE: if the UAD field is desired this should be handled separately and sent at the same time
     Registration {
         /// The username of whoever is registering
+        #[cfg_attr(feature = "serde", serde(serialize_with = "serde_serialize_bytes"))]
         username: &'a [u8],
 
         /// The salt used when computing the verifier
@@ -1035,6 +1039,7 @@ pub enum ClientMessage<'a, const K1: usize> {
     #[cfg(feature = "strong_aucpace")]
     StrongRegistration {
         /// The username of whoever is registering
+        #[cfg_attr(feature = "serde", serde(serialize_with = "serde_serialize_bytes"))]
         username: &'a [u8],
 
         /// The salt used when computing the verifier
diff --git a/aucpace/src/utils.rs b/aucpace/src/utils.rs
index 0819227..2075c7d 100644
--- a/aucpace/src/utils.rs
+++ b/aucpace/src/utils.rs
@@ -167,7 +167,17 @@ where
     (private, public)
 }
 
-// serde_with helper modules for serialising
+// serde_with helpers for serialising
+
+// `&[u8]` is deserialized from a byte string, but by default serialized as a sequence
+#[cfg(feature = "serde")]
+pub fn serde_serialize_bytes<S>(data: &[u8], serializer: S) -> core::result::Result<S::Ok, S::Error>
+where
+    S: serde::Serializer,
+{
+    serializer.serialize_bytes(data)
+}
+
 #[cfg(feature = "serde")]
 pub mod serde_saltstring {
     use core::fmt;
-- 
2.43.0

