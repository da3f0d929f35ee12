From 5dfb5ca5837374d97a849d28b6b57b2828a4982e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:46 +0000
Subject: [PATCH 1/5] fix: refuse a neutral salt point in
 StrongAuCPaceClientAugLayer::generate_cpace

---
 aucpace/src/client.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aucpace/src/client.rs b/aucpace/src/client.rs
index 1ef7bfc..2bf3e81 100644
--- a/aucpace/src/client.rs
+++ b/aucpace/src/client.rs
@@ -670,7 +670,13 @@ where
         // I have interpreted this as the multiplicative inverse of (r * cj^2)
         // then multiplied by cj again.
         let exponent = (self.blinding_value * cofactor * cofactor).invert() * cofactor;
-        let salt = (blinded_salt * exponent).compress().to_bytes();
+
+        // check if the salt point is the neutral element
+        let salt_point = blinded_salt * exponent;
+        if salt_point.is_identity() {
+            return Err(Error::IllegalPointError);
+        }
+        let salt = salt_point.compress().to_bytes();
         let salt_string = SaltString::encode_b64(&salt).map_err(Error::PasswordHashing)?;
 
         // compute the PRS
-- 
2.43.0


From c7da68bbe1ff703001826a77515e84b61880ff2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:46 +0000
Subject: [PATCH 2/5] fix: zero-pad hex bytes in the Debug output of non-UTF-8
 SPAKE2 identities

---
 spake2/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spake2/src/lib.rs b/spake2/src/lib.rs
index b1d8715..fb17952 100644
--- a/spake2/src/lib.rs
+++ b/spake2/src/lib.rs
@@ -569,7 +569,7 @@ impl fmt::Debug for MaybeUtf8<'_> {
             write!(fmt, "(hex=")?;
 
             for byte in self.0 {
-                write!(fmt, "{byte:x}")?;
+                write!(fmt, "{byte:02x}")?;
             }
 
             write!(fmt, ")")
-- 
2.43.0


From a4e82e6efa931efad3570d76447339c18ae7e25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:48 +0000
Subject: [PATCH 3/5] fix: give unknown AuCPace users a fake salt of the usual
 length

---
 aucpace/src/server.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/aucpace/src/server.rs b/aucpace/src/server.rs
index 6e66b94..c6b5c0c 100644
--- a/aucpace/src/server.rs
+++ b/aucpace/src/server.rs
@@ -13,7 +13,7 @@ use curve25519_dalek::{
     ristretto::RistrettoPoint,
     scalar::Scalar,
 };
-use password_hash::{ParamsString, SaltString};
+use password_hash::{ParamsString, Salt, SaltString};
 use rand_core::CryptoRngCore;
 use subtle::ConstantTimeEq;
 
@@ -457,10 +457,10 @@ where
         let hash = hasher.finalize();
         let hash_bytes: &[u8] = hash.as_ref();
 
-        // It is okay to expect here because SaltString has a buffer of 64 bytes by requirement
-        // from the PHC spec. 48 bytes of data when encoded as base64 transform to 64 bytes.
-        // This gives us the most entropy possible from the hash in the SaltString.
-        let salt = SaltString::encode_b64(&hash_bytes[..48])
+        // Use the same amount of data as `SaltString::generate` does when a user registers, so that
+        // the length of the salt doesn't give away that the lookup failed. It is okay to expect
+        // here because this is well below the maximum length of a SaltString.
+        let salt = SaltString::encode_b64(&hash_bytes[..Salt::RECOMMENDED_LENGTH])
             .expect("SaltString maximum length invariant broken");
 
         let message = ServerMessage::AugmentationInfo {
-- 
2.43.0


From cd60d59c11afa9d972ae2c5abafbedb873bce3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:58 +0000
Subject: [PATCH 4/5] fix: give unknown AuCPace users a stable long term public
 key

---
 aucpace/src/server.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/aucpace/src/server.rs b/aucpace/src/server.rs
index c6b5c0c..9d5defd 100644
--- a/aucpace/src/server.rs
+++ b/aucpace/src/server.rs
@@ -262,9 +262,9 @@ where
             // generate the prs and client message
             self.generate_prs(user, database, &mut rng, x, x_pub)
         } else {
-            // if the user does not have a keypair stored then we generate a random point on the
-            // curve to be the public key, and handle the failed lookup as normal
-            let x_pub = RistrettoPoint::random(&mut rng);
+            // if the user does not have a keypair stored then we derive a point on the curve to be
+            // the public key, and handle the failed lookup as normal
+            let x_pub = self.fake_long_term_pubkey(user);
             self.lookup_failed(user, x_pub, &mut rng)
         };
         let next_step = AuCPaceServerCPaceSubstep::new(self.ssid, prs, rng);
@@ -357,9 +357,9 @@ where
             // generate the prs and client message
             self.generate_prs_strong(user, blinded, database, &mut rng, x, x_pub)?
         } else {
-            // if the user does not have a keypair stored then we generate a random point on the
-            // curve to be the public key, and handle the failed lookup as normal
-            let x_pub = RistrettoPoint::random(&mut rng);
+            // if the user does not have a keypair stored then we derive a point on the curve to be
+            // the public key, and handle the failed lookup as normal
+            let x_pub = self.fake_long_term_pubkey(user);
             self.lookup_failed_strong(user, blinded, x_pub, &mut rng)?
         };
         let next_step = AuCPaceServerCPaceSubstep::new(self.ssid, prs, rng);
@@ -434,6 +434,17 @@ where
         }
     }
 
+    /// Derive the long term public key sent for a user without a stored keypair.
+    /// It is always the same for a given username, as it is for users with a stored keypair.
+    #[cfg(feature = "partial_augmentation")]
+    fn fake_long_term_pubkey(&self, username: &[u8]) -> RistrettoPoint {
+        let mut hasher: D = Default::default();
+        hasher.update(b"long term public key");
+        hasher.update(self.secret.0.to_le_bytes());
+        hasher.update(username);
+        RistrettoPoint::from_hash(hasher)
+    }
+
     /// Generate the message for if the lookup failed
     fn lookup_failed<CSPRNG>(
         &self,
-- 
2.43.0


From 65c7b40da2f67b306ba1710e9d66c1547dcbe9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:31 +0000
Subject: [PATCH 5/5] fix: keep serialised AuCPace variant indices independent
 of strong_aucpace

The feature-gated variants sat between the others, so formats that encode the
variant index (bincode, postcard) numbered PublicKey, Authenticator and
Registration differently in builds with and without strong_aucpace, and such
peers could not read each other's messages.
---
 aucpace/src/client.rs | 21 +++++++++++----------
 aucpace/src/server.rs | 13 +++++++------
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/aucpace/src/client.rs b/aucpace/src/client.rs
index 2bf3e81..1b4cc64 100644
--- a/aucpace/src/client.rs
+++ b/aucpace/src/client.rs
@@ -996,16 +996,6 @@ pub enum ClientMessage<'a, const K1: usize> {
     /// Username - the client's username
     Username(&'a [u8]),
 
-    /// StrongUsername - the strong `AuCPace` username message
-    /// also contains the blinded point `U`
-    #[cfg(feature = "strong_aucpace")]
-    StrongUsername {
-        /// The client's username
-        username: &'a [u8],
-        /// The blinded point `U`
-        blinded: RistrettoPoint,
-    },
-
     /// PublicKey - the client's public key: `Ya`
     PublicKey(RistrettoPoint),
 
@@ -1030,6 +1020,17 @@ pub enum ClientMessage<'a, const K1: usize> {
         verifier: RistrettoPoint,
     },
 
+    // feature-gated variants come last: serialised variant indices must not depend on features
+    /// StrongUsername - the strong `AuCPace` username message
+    /// also contains the blinded point `U`
+    #[cfg(feature = "strong_aucpace")]
+    StrongUsername {
+        /// The client's username
+        username: &'a [u8],
+        /// The blinded point `U`
+        blinded: RistrettoPoint,
+    },
+
     /// Registration Strong version - the username, verifier, secret exponent and parameters needed for registering a user
     /// NOTE: if the UAD field is desired this should be handled separately and sent at the same time
     #[cfg(feature = "strong_aucpace")]
diff --git a/aucpace/src/server.rs b/aucpace/src/server.rs
index 9d5defd..d2fa174 100644
--- a/aucpace/src/server.rs
+++ b/aucpace/src/server.rs
@@ -715,6 +715,13 @@ pub enum ServerMessage<'a, const K1: usize> {
         pbkdf_params: ParamsString,
     },
 
+    /// `CPace` substep message - the server's public key: `Ya`
+    PublicKey(RistrettoPoint),
+
+    /// Explicit Mutual Authentication - the server's authenticator: `Ta`
+    Authenticator(#[cfg_attr(feature = "serde", serde(with = "serde_byte_array"))] [u8; 64]),
+
+    // feature-gated variants come last: serialised variant indices must not depend on features
     /// Information required for the AuCPace Augmentation layer sub-step
     #[cfg(feature = "strong_aucpace")]
     StrongAugmentationInfo {
@@ -731,12 +738,6 @@ pub enum ServerMessage<'a, const K1: usize> {
         #[cfg_attr(feature = "serde", serde(with = "serde_paramsstring"))]
         pbkdf_params: ParamsString,
     },
-
-    /// `CPace` substep message - the server's public key: `Ya`
-    PublicKey(RistrettoPoint),
-
-    /// Explicit Mutual Authentication - the server's authenticator: `Ta`
-    Authenticator(#[cfg_attr(feature = "serde", serde(with = "serde_byte_array"))] [u8; 64]),
 }
 
 #[cfg(test)]
-- 
2.43.0

