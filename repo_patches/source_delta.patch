From e8a5614bbdc73feb829fd22852bc332df074ec16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:23 +0000
Subject: [PATCH 01/19] fix: write whole fields when encoding to a stream

Serializable implementations called Write::write once and ignored how much it
accepted, so a short write lost bytes and an interrupted one failed.
---
 stratumv2/src/codec/frame.rs      |  8 +++++---
 stratumv2/src/noise/types.rs      |  4 ++--
 stratumv2/src/types/bytes.rs      |  2 +-
 stratumv2/src/types/fixed.rs      |  4 ++--
 stratumv2/src/types/primitives.rs | 10 +++++-----
 stratumv2/src/types/strings.rs    |  2 +-
 6 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/stratumv2/src/codec/frame.rs b/stratumv2/src/codec/frame.rs
index b8a16ec..7cc581f 100644
--- a/stratumv2/src/codec/frame.rs
+++ b/stratumv2/src/codec/frame.rs
@@ -42,14 +42,16 @@ impl Serializable for Message {
 
         let message_length = U24::new(self.payload.len() as u32)?;
 
-        Ok([
+        let header_length: usize = [
             extension_type.serialize(writer)?,
             message_type.serialize(writer)?,
             message_length.serialize(writer)?,
-            writer.write(self.payload.as_slice())?,
         ]
         .iter()
-        .sum())
+        .sum();
+        writer.write_all(self.payload.as_slice())?;
+
+        Ok(header_length + self.payload.len())
     }
 }
 
diff --git a/stratumv2/src/noise/types.rs b/stratumv2/src/noise/types.rs
index 9d3400d..475a9ba 100644
--- a/stratumv2/src/noise/types.rs
+++ b/stratumv2/src/noise/types.rs
@@ -26,7 +26,7 @@ pub type StaticPublicKey = noiseexplorer_nx::types::PublicKey;
 impl Serializable for StaticPublicKey {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
         let public_key = self.as_bytes();
-        writer.write(&public_key)?;
+        writer.write_all(&public_key)?;
 
         Ok(public_key.len())
     }
@@ -52,7 +52,7 @@ pub type Signature = ed25519_dalek::Signature;
 impl Serializable for Signature {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
         let public_key = self.to_bytes();
-        writer.write(&public_key)?;
+        writer.write_all(&public_key)?;
 
         Ok(public_key.len())
     }
diff --git a/stratumv2/src/types/bytes.rs b/stratumv2/src/types/bytes.rs
index bc25e76..bb5a8ad 100644
--- a/stratumv2/src/types/bytes.rs
+++ b/stratumv2/src/types/bytes.rs
@@ -76,7 +76,7 @@ macro_rules! impl_sized_B0 {
                 // Write the length header.
                 let header_length = self.length.serialize(writer)?;
                 // Then write the byte buffer.
-                writer.write(self.data.as_slice())?;
+                writer.write_all(self.data.as_slice())?;
 
                 Ok(header_length + self.data.len())
             }
diff --git a/stratumv2/src/types/fixed.rs b/stratumv2/src/types/fixed.rs
index fbdfc79..28d2334 100644
--- a/stratumv2/src/types/fixed.rs
+++ b/stratumv2/src/types/fixed.rs
@@ -77,7 +77,7 @@ impl Deserializable for U24 {
 
 impl Serializable for U24 {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
-        writer.write(&self.0.to_le_bytes()[0..3])?;
+        writer.write_all(&self.0.to_le_bytes()[0..3])?;
         Ok(3)
     }
 }
@@ -97,7 +97,7 @@ impl Deserializable for U256 {
 
 impl Serializable for U256 {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
-        writer.write(&self.0)?;
+        writer.write_all(&self.0)?;
         Ok(32)
     }
 }
diff --git a/stratumv2/src/types/primitives.rs b/stratumv2/src/types/primitives.rs
index be4f924..a58cb9a 100644
--- a/stratumv2/src/types/primitives.rs
+++ b/stratumv2/src/types/primitives.rs
@@ -7,7 +7,7 @@ use std::io;
 impl Serializable for bool {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
         let buffer = if *self { vec![1u8] } else { vec![0u8] };
-        writer.write(&buffer)?;
+        writer.write_all(&buffer)?;
         Ok(buffer.len())
     }
 }
@@ -15,7 +15,7 @@ impl Serializable for bool {
 impl Serializable for u8 {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
         let buffer = self.to_le_bytes();
-        writer.write(&buffer)?;
+        writer.write_all(&buffer)?;
         Ok(buffer.len())
     }
 }
@@ -23,7 +23,7 @@ impl Serializable for u8 {
 impl Serializable for u16 {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
         let buffer = self.to_le_bytes();
-        writer.write(&buffer)?;
+        writer.write_all(&buffer)?;
         Ok(buffer.len())
     }
 }
@@ -31,7 +31,7 @@ impl Serializable for u16 {
 impl Serializable for u32 {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
         let buffer = self.to_le_bytes();
-        writer.write(&buffer)?;
+        writer.write_all(&buffer)?;
         Ok(buffer.len())
     }
 }
@@ -39,7 +39,7 @@ impl Serializable for u32 {
 impl Serializable for f32 {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
         let buffer = self.to_le_bytes();
-        writer.write(&buffer)?;
+        writer.write_all(&buffer)?;
         Ok(buffer.len())
     }
 }
diff --git a/stratumv2/src/types/strings.rs b/stratumv2/src/types/strings.rs
index e9f5378..018559f 100644
--- a/stratumv2/src/types/strings.rs
+++ b/stratumv2/src/types/strings.rs
@@ -74,7 +74,7 @@ macro_rules! impl_sized_STR0 {
                 // Write the length header.
                 let header_length = self.length.serialize(writer)?;
                 // Then write the byte buffer.
-                writer.write(self.data.as_bytes())?;
+                writer.write_all(self.data.as_bytes())?;
 
                 Ok(header_length + self.length as usize)
             }
-- 
2.43.0


From a7e73c3d3d49115134798f697fd0232270d2fecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:23 +0000
Subject: [PATCH 02/19] fix: refuse to frame payloads of 4 GiB and more

The payload length was truncated to 32 bits before the 24-bit range check, so
the frame header could claim a wrong, small length.
---
 stratumv2/src/codec/frame.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stratumv2/src/codec/frame.rs b/stratumv2/src/codec/frame.rs
index 7cc581f..9985212 100644
--- a/stratumv2/src/codec/frame.rs
+++ b/stratumv2/src/codec/frame.rs
@@ -1,6 +1,7 @@
 use crate::codec::{serialize, ByteParser, Deserializable, Serializable};
 use crate::error::{Error, Result};
 use crate::types::{MessageType, U24};
+use std::convert::TryFrom;
 use std::io;
 
 /// The CHANNEL_BIT_MASK is used to mask out the MSB to identify if a message
@@ -40,7 +41,7 @@ impl Serializable for Message {
             extension_type |= CHANNEL_BIT_MASK;
         }
 
-        let message_length = U24::new(self.payload.len() as u32)?;
+        let message_length = U24::try_from(self.payload.len())?;
 
         let header_length: usize = [
             extension_type.serialize(writer)?,
-- 
2.43.0


From b16650ccbc1e9b2445a80259c7ab231d19b5bf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:23 +0000
Subject: [PATCH 03/19] fix: return an error for a malformed signature instead
 of panicking

Signature::new panics when the top bits of the last byte are set.
---
 stratumv2/src/noise/types.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/stratumv2/src/noise/types.rs b/stratumv2/src/noise/types.rs
index 475a9ba..1904337 100644
--- a/stratumv2/src/noise/types.rs
+++ b/stratumv2/src/noise/types.rs
@@ -1,7 +1,6 @@
 use crate::codec::{ByteParser, Deserializable, Serializable};
 use crate::error::Result;
 use rand::rngs::OsRng;
-use std::convert::TryInto;
 use std::io;
 
 /// AuthorityKeyPair is an ed25519_dalek::Keypair used as the Authentication Authority
@@ -61,6 +60,6 @@ impl Serializable for Signature {
 impl Deserializable for Signature {
     fn deserialize(parser: &mut ByteParser) -> Result<Self> {
         let signature_bytes = parser.next_by(64)?;
-        Ok(Signature::new(signature_bytes.try_into()?))
+        Ok(Signature::from_bytes(signature_bytes)?)
     }
 }
-- 
2.43.0


From ef52431998cbc65f32a6c314fc0c42a833608feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:12 +0000
Subject: [PATCH 04/19] fix: accept handshake payloads of any length

The initiator panicked on a second handshake message whose payload part was
shorter than a MAC or longer than a fixed 2048-byte buffer.
---
 stratumv2/nx-noise/src/state.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/stratumv2/nx-noise/src/state.rs b/stratumv2/nx-noise/src/state.rs
index b3c458a..412f0cf 100644
--- a/stratumv2/nx-noise/src/state.rs
+++ b/stratumv2/nx-noise/src/state.rs
@@ -221,14 +221,16 @@ impl SymmetricState {
     }
 
     pub(crate) fn decrypt_and_hash(&mut self, in_out: &mut [u8]) -> Result<(), NoiseError> {
-        let mut temp: [u8; 2048] = [0u8; 2048];
-        temp[..in_out.len()].copy_from_slice(in_out);
+        if in_out.len() < MAC_LENGTH {
+            return Err(NoiseError::MissingHsMacError);
+        }
+        let temp = in_out.to_vec();
         let (ciphertext, mac) = in_out.split_at_mut(in_out.len() - MAC_LENGTH);
         let mut temp_mac: [u8; MAC_LENGTH] = [0u8; MAC_LENGTH];
         temp_mac.copy_from_slice(mac);
         self.cs
             .decrypt_with_ad(&self.h.as_bytes()[..], ciphertext, &mut temp_mac)?;
-        self.mix_hash(&temp[..in_out.len()]);
+        self.mix_hash(&temp[..]);
         Ok(())
     }
 
-- 
2.43.0


From eb40ed664cd9129610fda2e0353ba6553876d4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:12 +0000
Subject: [PATCH 05/19] fix: refuse a too short second handshake message before
 using it

The length was checked only after part of the message had been mixed into the
handshake state, so a refused short message or buffer broke the handshake for
good.
---
 stratumv2/nx-noise/src/state.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stratumv2/nx-noise/src/state.rs b/stratumv2/nx-noise/src/state.rs
index 412f0cf..068381a 100644
--- a/stratumv2/nx-noise/src/state.rs
+++ b/stratumv2/nx-noise/src/state.rs
@@ -12,6 +12,9 @@ use crate::{
 use hacl_star::chacha20poly1305;
 use zeroize::Zeroize;
 
+/// The shortest second handshake message: e, encrypted s and the payload's MAC.
+const HANDSHAKE_B_MIN_LENGTH: usize = DHLEN + DHLEN + MAC_LENGTH + MAC_LENGTH;
+
 pub(crate) struct CipherState {
     k: Key,
     n: Nonce,
@@ -331,7 +334,7 @@ impl HandshakeState {
         &mut self,
         in_out: &mut [u8],
     ) -> Result<(Hash, CipherState, CipherState), NoiseError> {
-        if in_out.len() < DHLEN {
+        if in_out.len() < HANDSHAKE_B_MIN_LENGTH {
             return Err(NoiseError::MissingneError);
         }
         if self.e.is_empty() {
@@ -378,7 +381,7 @@ impl HandshakeState {
         &mut self,
         in_out: &mut [u8],
     ) -> Result<(Hash, CipherState, CipherState), NoiseError> {
-        if in_out.len() < MAC_LENGTH + DHLEN {
+        if in_out.len() < HANDSHAKE_B_MIN_LENGTH {
             return Err(NoiseError::MissingreError);
         }
         let (re, in_out) = in_out.split_at_mut(DHLEN);
-- 
2.43.0


From 0d2d14062ab6c3379410dd10ceca1f9cedf38202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:12 +0000
Subject: [PATCH 06/19] fix: refuse handshake messages that are out of turn

The role of a session was ignored during the handshake: an initiator that sent
twice completed on its own with an all-zero shared secret, and one that received
first acted as a responder.
---
 stratumv2/nx-noise/src/error.rs        | 2 ++
 stratumv2/nx-noise/src/noisesession.rs | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/stratumv2/nx-noise/src/error.rs b/stratumv2/nx-noise/src/error.rs
index 598db8a..09cfa4b 100644
--- a/stratumv2/nx-noise/src/error.rs
+++ b/stratumv2/nx-noise/src/error.rs
@@ -16,6 +16,7 @@ pub enum NoiseError {
     MissingHsMacError,
     MissingrsError,
     MissingreError,
+    OutOfTurnError,
 }
 
 impl std::fmt::Display for NoiseError {
@@ -40,6 +41,7 @@ impl std::fmt::Display for NoiseError {
             NoiseError::MissingneError => write!(f, "Invalid message length."),
             NoiseError::MissingrsError => write!(f, "Invalid message length."),
             NoiseError::MissingreError => write!(f, "Invalid message length."),
+            NoiseError::OutOfTurnError => write!(f, "Handshake message out of turn."),
             NoiseError::Hex(ref e) => e.fmt(f),
         }
     }
diff --git a/stratumv2/nx-noise/src/noisesession.rs b/stratumv2/nx-noise/src/noisesession.rs
index 6c4cb06..c3f5a22 100644
--- a/stratumv2/nx-noise/src/noisesession.rs
+++ b/stratumv2/nx-noise/src/noisesession.rs
@@ -147,6 +147,10 @@ impl NoiseSession {
         if in_out.len() < MAC_LENGTH || in_out.len() > MAX_MESSAGE {
             return Err(NoiseError::UnsupportedMessageLengthError);
         }
+        // The initiator sends the first handshake message, the responder the second.
+        if self.mc < 2 && self.i != (self.mc == 0) {
+            return Err(NoiseError::OutOfTurnError);
+        }
         if self.mc == 0 {
             self.hs.write_message_a(in_out)?;
         } else if self.mc == 1 {
@@ -181,6 +185,10 @@ impl NoiseSession {
         if in_out.len() < MAC_LENGTH || in_out.len() > MAX_MESSAGE {
             return Err(NoiseError::UnsupportedMessageLengthError);
         }
+        // The responder receives the first handshake message, the initiator the second.
+        if self.mc < 2 && self.i == (self.mc == 0) {
+            return Err(NoiseError::OutOfTurnError);
+        }
 
         if self.mc == 0 {
             self.hs.read_message_a(in_out)?;
-- 
2.43.0


From f25dd2432cf3347ecc982cad044e320ba233edb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:12 +0000
Subject: [PATCH 07/19] fix: accept a first handshake message with a payload
 under 16 bytes

The first message is not encrypted and carries no MAC, and the sender already
allows 32 bytes, which is also what other implementations send.
---
 stratumv2/nx-noise/src/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stratumv2/nx-noise/src/state.rs b/stratumv2/nx-noise/src/state.rs
index 068381a..34c92db 100644
--- a/stratumv2/nx-noise/src/state.rs
+++ b/stratumv2/nx-noise/src/state.rs
@@ -364,7 +364,7 @@ impl HandshakeState {
     }
 
     pub(crate) fn read_message_a(&mut self, in_out: &mut [u8]) -> Result<(), NoiseError> {
-        if in_out.len() < MAC_LENGTH + DHLEN {
+        if in_out.len() < DHLEN {
             return Err(NoiseError::MissingreError);
         }
 
-- 
2.43.0


From a9c056fd0f0438e5b32a81fc70d6cd39817ad4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:12 +0000
Subject: [PATCH 08/19] fix: answer a short first handshake message

The reply was written over the received message, so a first message of under 96
bytes was consumed but could not be answered and the handshake was stuck.
---
 stratumv2/src/network/encryptor.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/stratumv2/src/network/encryptor.rs b/stratumv2/src/network/encryptor.rs
index 2af3c1b..12589bf 100644
--- a/stratumv2/src/network/encryptor.rs
+++ b/stratumv2/src/network/encryptor.rs
@@ -4,6 +4,10 @@ use crate::{
         new_noise_initiator, new_noise_responder, NoiseSession, StaticKeyPair, StaticPublicKey,
     },
 };
+use noiseexplorer_nx::consts::{DHLEN, MAC_LENGTH};
+
+/// The least room a handshake reply needs: e, encrypted s and the payload's MAC.
+const MIN_HANDSHAKE_REPLY: usize = DHLEN + DHLEN + MAC_LENGTH + MAC_LENGTH;
 
 /// The Encryptor trait can be used to apply a noise framework encryption implementation
 /// for a connection.
@@ -57,9 +61,15 @@ impl Encryptor for ConnectionEncryptor {
     /// the counter-party.
     fn recv_handshake(&mut self, bytes: &mut [u8]) -> Result<Vec<u8>> {
         self.noise_session.recv_message(bytes)?;
-        self.noise_session.send_message(bytes)?;
 
-        Ok(bytes.to_vec())
+        // The reply can need more room than the received message took.
+        let mut reply = bytes.to_vec();
+        if reply.len() < MIN_HANDSHAKE_REPLY {
+            reply.resize(MIN_HANDSHAKE_REPLY, 0);
+        }
+        self.noise_session.send_message(&mut reply)?;
+
+        Ok(reply)
     }
 
     /// Initialize the handshake state as the initiator. Will return the bytes
-- 
2.43.0


From 640bf1282b8e9e48d9da4784c7d05637884f4873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:12 +0000
Subject: [PATCH 09/19] fix: rekey the remote cipher state, not the local one

---
 stratumv2/nx-noise/src/noisesession.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stratumv2/nx-noise/src/noisesession.rs b/stratumv2/nx-noise/src/noisesession.rs
index c3f5a22..efb8686 100644
--- a/stratumv2/nx-noise/src/noisesession.rs
+++ b/stratumv2/nx-noise/src/noisesession.rs
@@ -65,7 +65,7 @@ impl NoiseSession {
 
     /// Calls the [Rekey](https://noiseprotocol.org/noise.html#rekey) method for `cs2`
     pub fn rekey_remote_cipherstate(&mut self) {
-        self.cs1.rekey()
+        self.cs2.rekey()
     }
 
     /// `NoiseSession` destructor function.
-- 
2.43.0


From 8358f73f227e3bc4dc4c83856bbcd0ea2bae39cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:12 +0000
Subject: [PATCH 10/19] fix: do not rekey a cleared cipher state

It came back to life under a key that anyone can compute.
---
 stratumv2/nx-noise/src/state.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stratumv2/nx-noise/src/state.rs b/stratumv2/nx-noise/src/state.rs
index 34c92db..ac6337c 100644
--- a/stratumv2/nx-noise/src/state.rs
+++ b/stratumv2/nx-noise/src/state.rs
@@ -99,6 +99,10 @@ impl CipherState {
 
     #[allow(dead_code)]
     pub(crate) fn rekey(&mut self) {
+        // Without a key there is nothing to derive a new one from.
+        if !self.has_key() {
+            return;
+        }
         let mut in_out = EMPTY_KEY;
         chacha20poly1305::key(&self.k.as_bytes())
             .nonce(&[0xFFu8; NONCE_LENGTH])
-- 
2.43.0


From 4c97cfce9322869acd79b806f4863c36d05b6a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:12 +0000
Subject: [PATCH 11/19] fix: rekey with the nonce the Noise specification names

The nonce is 2^64-1 in the ChaChaPoly layout: four zero bytes, then the counter.
---
 stratumv2/nx-noise/src/state.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stratumv2/nx-noise/src/state.rs b/stratumv2/nx-noise/src/state.rs
index ac6337c..2993f0e 100644
--- a/stratumv2/nx-noise/src/state.rs
+++ b/stratumv2/nx-noise/src/state.rs
@@ -3,11 +3,11 @@
  * ---------------------------------------------------------------- */
 
 use crate::{
-    consts::{DHLEN, EMPTY_HASH, EMPTY_KEY, HASHLEN, MAC_LENGTH, NONCE_LENGTH, ZEROLEN},
+    consts::{DHLEN, EMPTY_HASH, EMPTY_KEY, HASHLEN, MAC_LENGTH, MAX_NONCE, ZEROLEN},
     error::NoiseError,
     prims::{decrypt, encrypt, hash, hash_with_context, hkdf},
     types::{Hash, Key, Keypair, Nonce, Psk, PublicKey},
-    utils::from_slice_hashlen,
+    utils::{from_slice_hashlen, prep_nonce},
 };
 use hacl_star::chacha20poly1305;
 use zeroize::Zeroize;
@@ -105,7 +105,7 @@ impl CipherState {
         }
         let mut in_out = EMPTY_KEY;
         chacha20poly1305::key(&self.k.as_bytes())
-            .nonce(&[0xFFu8; NONCE_LENGTH])
+            .nonce(&prep_nonce(MAX_NONCE))
             .encrypt(&ZEROLEN[..], &mut in_out[..], &mut [0u8; 16]);
         self.k.clear();
         self.k = Key::from_bytes(in_out);
-- 
2.43.0


From eb4c988c8b0f58bdb31890ed1845df6e91ac428c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:12 +0000
Subject: [PATCH 12/19] fix: reject certificates that are not valid yet

---
 stratumv2/src/noise/certificate_format.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/stratumv2/src/noise/certificate_format.rs b/stratumv2/src/noise/certificate_format.rs
index 9342589..e0175b6 100644
--- a/stratumv2/src/noise/certificate_format.rs
+++ b/stratumv2/src/noise/certificate_format.rs
@@ -43,7 +43,14 @@ impl<'a> CertificateFormat<'a> {
     /// limits and whether the static public key was signed by the AuthorityKeyPair
     /// identifying the Mining Pool.
     pub fn verify(&self) -> Result<()> {
-        if unix_u32_now()? >= self.signature_noise_message.not_valid_after {
+        let now = unix_u32_now()?;
+        if now < self.signature_noise_message.valid_from {
+            return Err(Error::RequirementError(
+                "the signature noise message is not valid yet".into(),
+            ));
+        }
+
+        if now >= self.signature_noise_message.not_valid_after {
             return Err(Error::RequirementError(
                 "the signature noise message is expired".into(),
             ));
-- 
2.43.0


From 3606817c8d8bf241c4320bd8a2d6febc94183ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:12 +0000
Subject: [PATCH 13/19] fix: do not wrap times beyond the 32-bit range

The truncated time made expired certificates look valid.
---
 stratumv2/src/types/unix_timestamp.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/stratumv2/src/types/unix_timestamp.rs b/stratumv2/src/types/unix_timestamp.rs
index 2c42c5f..22bea1e 100644
--- a/stratumv2/src/types/unix_timestamp.rs
+++ b/stratumv2/src/types/unix_timestamp.rs
@@ -1,11 +1,13 @@
-use crate::error::Result;
+use crate::error::{Error, Result};
+use std::convert::TryFrom;
 use std::time::SystemTime;
 
 /// Convert SystemTime to a Unix timestamp as a u32.
 pub fn system_unix_time_to_u32(time: &SystemTime) -> Result<u32> {
-    Ok(time
-        .duration_since(SystemTime::UNIX_EPOCH)
-        .map(|duration| duration.as_secs() as u32)?)
+    let seconds = time.duration_since(SystemTime::UNIX_EPOCH)?.as_secs();
+
+    u32::try_from(seconds)
+        .map_err(|_| Error::RequirementError("the time does not fit a u32 timestamp".into()))
 }
 
 /// A helper function that returns the current unix time in seconds as a u32.
-- 
2.43.0


From 5946089e7647bfe8fba6f903b3dff5190fbca08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:12 +0000
Subject: [PATCH 14/19] fix: refuse low-order public keys with the unused top
 bit set

---
 stratumv2/nx-noise/src/types.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stratumv2/nx-noise/src/types.rs b/stratumv2/nx-noise/src/types.rs
index 0fe14bf..80b51d6 100644
--- a/stratumv2/nx-noise/src/types.rs
+++ b/stratumv2/nx-noise/src/types.rs
@@ -294,8 +294,11 @@ impl PublicKey {
     }
     /// Instanciates a new `PublicKey` from an array of `DHLEN` bytes.
     pub fn from_bytes(k: [u8; DHLEN]) -> Result<Self, NoiseError> {
+        // The top bit is ignored when the key is used, so it is ignored here too.
+        let mut masked = k;
+        masked[DHLEN - 1] &= 0x7f;
         for i in forbidden_curve_values.iter() {
-            if &k == i {
+            if &k == i || &masked == i {
                 return Err(NoiseError::InvalidPublicKeyError);
             }
         }
-- 
2.43.0


From 6cb10c7b67d31eee3a8b1c03a5c48da6968eb209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:30 +0000
Subject: [PATCH 15/19] hook: fast-forward message numbers under --cfg
 verif_sim

For simulating very long sessions; compiled out by default.
---
 stratumv2/nx-noise/src/lib.rs          |  2 ++
 stratumv2/nx-noise/src/noisesession.rs | 10 ++++++++++
 stratumv2/nx-noise/src/types.rs        |  8 ++++++++
 3 files changed, 20 insertions(+)

diff --git a/stratumv2/nx-noise/src/lib.rs b/stratumv2/nx-noise/src/lib.rs
index 95681f9..46d3020 100644
--- a/stratumv2/nx-noise/src/lib.rs
+++ b/stratumv2/nx-noise/src/lib.rs
@@ -10,6 +10,8 @@ NX:
  * PARAMETERS                                                       *
  * ---------------------------------------------------------------- */
 
+#![allow(unexpected_cfgs)] // verif_sim
+
 #[macro_use]
 pub(crate) mod macros;
 
diff --git a/stratumv2/nx-noise/src/noisesession.rs b/stratumv2/nx-noise/src/noisesession.rs
index efb8686..2106fa1 100644
--- a/stratumv2/nx-noise/src/noisesession.rs
+++ b/stratumv2/nx-noise/src/noisesession.rs
@@ -209,3 +209,13 @@ impl NoiseSession {
         Ok(())
     }
 }
+
+/// Simulation only: compiled with `--cfg verif_sim`, never in a normal build.
+#[cfg(verif_sim)]
+impl NoiseSession {
+    /// Fast-forwards the message numbers of the two directions.
+    pub fn verif_set_message_numbers(&mut self, local: u64, remote: u64) {
+        self.cs1.set_nonce(crate::types::Nonce::verif_from(local));
+        self.cs2.set_nonce(crate::types::Nonce::verif_from(remote));
+    }
+}
diff --git a/stratumv2/nx-noise/src/types.rs b/stratumv2/nx-noise/src/types.rs
index 80b51d6..093bd28 100644
--- a/stratumv2/nx-noise/src/types.rs
+++ b/stratumv2/nx-noise/src/types.rs
@@ -384,6 +384,14 @@ impl Nonce {
     }
 }
 
+/// Simulation only: compiled with `--cfg verif_sim`, never in a normal build.
+#[cfg(verif_sim)]
+impl Nonce {
+    pub(crate) fn verif_from(n: u64) -> Self {
+        Self { n: n as _ }
+    }
+}
+
 #[derive(Clone, PartialEq)]
 pub struct Keypair {
     private_key: PrivateKey,
-- 
2.43.0


From 4ffae933e3604180ed823c844f53b40c26f0bdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:17 +0000
Subject: [PATCH 16/19] Simulation hook: carry the session message count along

---
 stratumv2/nx-noise/src/noisesession.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stratumv2/nx-noise/src/noisesession.rs b/stratumv2/nx-noise/src/noisesession.rs
index 2106fa1..82c2247 100644
--- a/stratumv2/nx-noise/src/noisesession.rs
+++ b/stratumv2/nx-noise/src/noisesession.rs
@@ -217,5 +217,6 @@ impl NoiseSession {
     pub fn verif_set_message_numbers(&mut self, local: u64, remote: u64) {
         self.cs1.set_nonce(crate::types::Nonce::verif_from(local));
         self.cs2.set_nonce(crate::types::Nonce::verif_from(remote));
+        self.mc = (2 + u128::from(local) + u128::from(remote)) as _;
     }
 }
-- 
2.43.0


From 08a0c31ab055d6750532d788bf16612d42e7cf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:25 +0000
Subject: [PATCH 17/19] fix: end the chain of causes of a Noise error

---
 stratumv2/nx-noise/src/error.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stratumv2/nx-noise/src/error.rs b/stratumv2/nx-noise/src/error.rs
index 09cfa4b..8077544 100644
--- a/stratumv2/nx-noise/src/error.rs
+++ b/stratumv2/nx-noise/src/error.rs
@@ -49,6 +49,9 @@ impl std::fmt::Display for NoiseError {
 
 impl Error for NoiseError {
     fn source(&self) -> Option<&(dyn Error + 'static)> {
-        Some(self)
+        match self {
+            NoiseError::Hex(e) => Some(e),
+            _ => None,
+        }
     }
 }
-- 
2.43.0


From 9ecaf3f5dd2d9a18ba5cdb7e768edbe41248da3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:25 +0000
Subject: [PATCH 18/19] fix: name the received message type when it is not the
 expected one

---
 stratumv2/src/codec/frame.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stratumv2/src/codec/frame.rs b/stratumv2/src/codec/frame.rs
index 9985212..c620ad3 100644
--- a/stratumv2/src/codec/frame.rs
+++ b/stratumv2/src/codec/frame.rs
@@ -93,8 +93,8 @@ pub fn unframe<T: Frameable>(message: &Message) -> Result<T> {
     let expected_message_type = T::message_type();
     if expected_message_type != message.message_type {
         return Err(Error::UnexpectedMessageType(
-            expected_message_type.ext_type(),
-            expected_message_type.msg_type(),
+            message.message_type.ext_type(),
+            message.message_type.msg_type(),
         ));
     }
 
-- 
2.43.0


From f5ff3e1db5b1688619cdae1a14f49ff9be055f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:13 +0000
Subject: [PATCH 19/19] fix: key pairs and channel ids no longer repeat across
 a fork

rand's thread_rng refills its block in a forked process only once the block is
used up, so a parent and its children made the same next keys and channel ids.
Both now come from the operating system's generator.
---
 stratumv2/nx-noise/src/types.rs  | 5 +++--
 stratumv2/src/network/channel.rs | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/stratumv2/nx-noise/src/types.rs b/stratumv2/nx-noise/src/types.rs
index 093bd28..4b1b018 100644
--- a/stratumv2/nx-noise/src/types.rs
+++ b/stratumv2/nx-noise/src/types.rs
@@ -409,10 +409,11 @@ impl Keypair {
             public_key: PublicKey::empty(),
         }
     }
-    /// Instanciates a `Keypair` by generating a `PrivateKey` from random values using `thread_rng()`, then deriving the corresponding `PublicKey`
+    /// Instanciates a `Keypair` by generating a `PrivateKey` from random values of the operating system, then deriving the corresponding `PublicKey`.
+    /// (`thread_rng()` hands out the rest of its block again in every process forked after its use.)
     pub fn default() -> Self {
         let hacl_keypair: (curve25519::SecretKey, curve25519::PublicKey) =
-            curve25519::keypair(rand::thread_rng());
+            curve25519::keypair(rand::rngs::OsRng::new().expect("no entropy from the OS"));
         Self {
             private_key: PrivateKey::from_hacl_secret_key(hacl_keypair.0),
             public_key: PublicKey::from_hacl_public_key(hacl_keypair.1),
diff --git a/stratumv2/src/network/channel.rs b/stratumv2/src/network/channel.rs
index a864f4d..c3d0639 100644
--- a/stratumv2/src/network/channel.rs
+++ b/stratumv2/src/network/channel.rs
@@ -1,7 +1,7 @@
 use crate::mining::{OpenExtendedMiningChannel, OpenStandardMiningChannel};
 use std::{collections::HashMap, sync::Mutex};
 
-use rand::Rng;
+use rand::{rngs::OsRng, Rng};
 
 /// ChanID is a type assigned to identify channels on a connection.
 /// The type de/serialzing for messaging is already handled using the native
@@ -10,7 +10,7 @@ pub type ChanID = u32;
 
 /// Generate a new random channel_id.
 pub fn new_channel_id() -> ChanID {
-    rand::thread_rng().gen_range(0, ChanID::MAX)
+    OsRng.gen_range(0, ChanID::MAX)
 }
 
 /// Represents a Channel opened on a connection. The Channel holds stateful
-- 
2.43.0

