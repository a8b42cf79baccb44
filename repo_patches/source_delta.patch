From 1f809df6ffe64d610ac3bccd475b506de06e0415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:58 +0000
Subject: [PATCH 01/18] fix: serialize must not silently drop bytes on a
 partial write

io::Write::write may accept only part of the buffer; use write_all so that
serialize either writes the whole encoding or returns an error.
---
 stratumv2/src/codec/frame.rs      |  8 +++++---
 stratumv2/src/noise/types.rs      |  4 ++--
 stratumv2/src/types/bytes.rs      |  2 +-
 stratumv2/src/types/fixed.rs      |  4 ++--
 stratumv2/src/types/primitives.rs | 10 +++++-----
 stratumv2/src/types/strings.rs    |  2 +-
 6 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/stratumv2/src/codec/frame.rs b/stratumv2/src/codec/frame.rs
index b8a16ec..7cc581f 100644
--- a/stratumv2/src/codec/frame.rs
+++ b/stratumv2/src/codec/frame.rs
@@ -42,14 +42,16 @@ impl Serializable for Message {
 
         let message_length = U24::new(self.payload.len() as u32)?;
 
-        Ok([
+        let header_length: usize = [
             extension_type.serialize(writer)?,
             message_type.serialize(writer)?,
             message_length.serialize(writer)?,
-            writer.write(self.payload.as_slice())?,
         ]
         .iter()
-        .sum())
+        .sum();
+        writer.write_all(self.payload.as_slice())?;
+
+        Ok(header_length + self.payload.len())
     }
 }
 
diff --git a/stratumv2/src/noise/types.rs b/stratumv2/src/noise/types.rs
index 9d3400d..475a9ba 100644
--- a/stratumv2/src/noise/types.rs
+++ b/stratumv2/src/noise/types.rs
@@ -26,7 +26,7 @@ pub type StaticPublicKey = noiseexplorer_nx::types::PublicKey;
 impl Serializable for StaticPublicKey {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
         let public_key = self.as_bytes();
-        writer.write(&public_key)?;
+        writer.write_all(&public_key)?;
 
         Ok(public_key.len())
     }
@@ -52,7 +52,7 @@ pub type Signature = ed25519_dalek::Signature;
 impl Serializable for Signature {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
         let public_key = self.to_bytes();
-        writer.write(&public_key)?;
+        writer.write_all(&public_key)?;
 
         Ok(public_key.len())
     }
diff --git a/stratumv2/src/types/bytes.rs b/stratumv2/src/types/bytes.rs
index bc25e76..bb5a8ad 100644
--- a/stratumv2/src/types/bytes.rs
+++ b/stratumv2/src/types/bytes.rs
@@ -76,7 +76,7 @@ macro_rules! impl_sized_B0 {
                 // Write the length header.
                 let header_length = self.length.serialize(writer)?;
                 // Then write the byte buffer.
-                writer.write(self.data.as_slice())?;
+                writer.write_all(self.data.as_slice())?;
 
                 Ok(header_length + self.data.len())
             }
diff --git a/stratumv2/src/types/fixed.rs b/stratumv2/src/types/fixed.rs
index fbdfc79..28d2334 100644
--- a/stratumv2/src/types/fixed.rs
+++ b/stratumv2/src/types/fixed.rs
@@ -77,7 +77,7 @@ impl Deserializable for U24 {
 
 impl Serializable for U24 {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
-        writer.write(&self.0.to_le_bytes()[0..3])?;
+        writer.write_all(&self.0.to_le_bytes()[0..3])?;
         Ok(3)
     }
 }
@@ -97,7 +97,7 @@ impl Deserializable for U256 {
 
 impl Serializable for U256 {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
-        writer.write(&self.0)?;
+        writer.write_all(&self.0)?;
         Ok(32)
     }
 }
diff --git a/stratumv2/src/types/primitives.rs b/stratumv2/src/types/primitives.rs
index be4f924..a58cb9a 100644
--- a/stratumv2/src/types/primitives.rs
+++ b/stratumv2/src/types/primitives.rs
@@ -7,7 +7,7 @@ use std::io;
 impl Serializable for bool {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
         let buffer = if *self { vec![1u8] } else { vec![0u8] };
-        writer.write(&buffer)?;
+        writer.write_all(&buffer)?;
         Ok(buffer.len())
     }
 }
@@ -15,7 +15,7 @@ impl Serializable for bool {
 impl Serializable for u8 {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
         let buffer = self.to_le_bytes();
-        writer.write(&buffer)?;
+        writer.write_all(&buffer)?;
         Ok(buffer.len())
     }
 }
@@ -23,7 +23,7 @@ impl Serializable for u8 {
 impl Serializable for u16 {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
         let buffer = self.to_le_bytes();
-        writer.write(&buffer)?;
+        writer.write_all(&buffer)?;
         Ok(buffer.len())
     }
 }
@@ -31,7 +31,7 @@ impl Serializable for u16 {
 impl Serializable for u32 {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
         let buffer = self.to_le_bytes();
-        writer.write(&buffer)?;
+        writer.write_all(&buffer)?;
         Ok(buffer.len())
     }
 }
@@ -39,7 +39,7 @@ impl Serializable for u32 {
 impl Serializable for f32 {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
         let buffer = self.to_le_bytes();
-        writer.write(&buffer)?;
+        writer.write_all(&buffer)?;
         Ok(buffer.len())
     }
 }
diff --git a/stratumv2/src/types/strings.rs b/stratumv2/src/types/strings.rs
index e9f5378..018559f 100644
--- a/stratumv2/src/types/strings.rs
+++ b/stratumv2/src/types/strings.rs
@@ -74,7 +74,7 @@ macro_rules! impl_sized_STR0 {
                 // Write the length header.
                 let header_length = self.length.serialize(writer)?;
                 // Then write the byte buffer.
-                writer.write(self.data.as_bytes())?;
+                writer.write_all(self.data.as_bytes())?;
 
                 Ok(header_length + self.length as usize)
             }
-- 
2.43.0


From fcc8eaf8b19d3629891cfb4aa2aa7ec828d68043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:58 +0000
Subject: [PATCH 02/18] fix: refuse payloads of 4 GiB and more instead of
 wrapping the frame length

---
 stratumv2/src/codec/frame.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stratumv2/src/codec/frame.rs b/stratumv2/src/codec/frame.rs
index 7cc581f..9985212 100644
--- a/stratumv2/src/codec/frame.rs
+++ b/stratumv2/src/codec/frame.rs
@@ -1,6 +1,7 @@
 use crate::codec::{serialize, ByteParser, Deserializable, Serializable};
 use crate::error::{Error, Result};
 use crate::types::{MessageType, U24};
+use std::convert::TryFrom;
 use std::io;
 
 /// The CHANNEL_BIT_MASK is used to mask out the MSB to identify if a message
@@ -40,7 +41,7 @@ impl Serializable for Message {
             extension_type |= CHANNEL_BIT_MASK;
         }
 
-        let message_length = U24::new(self.payload.len() as u32)?;
+        let message_length = U24::try_from(self.payload.len())?;
 
         let header_length: usize = [
             extension_type.serialize(writer)?,
-- 
2.43.0


From 2b963b39d94758be9d49aab8f450471150b67261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:58 +0000
Subject: [PATCH 03/18] fix: ByteParser::next_by must not overflow on large
 offsets

---
 stratumv2/src/codec/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stratumv2/src/codec/parser.rs b/stratumv2/src/codec/parser.rs
index 8c7e7e6..858518f 100644
--- a/stratumv2/src/codec/parser.rs
+++ b/stratumv2/src/codec/parser.rs
@@ -14,7 +14,10 @@ impl<'a> ByteParser<'a> {
     }
 
     pub fn next_by(&mut self, step: usize) -> Result<&'a [u8]> {
-        let offset = self.start + step;
+        let offset = self
+            .start
+            .checked_add(step)
+            .ok_or_else(|| Error::ParseError("out of bounds error".into()))?;
 
         let b = self.bytes.get(self.start..offset);
         if b.is_none() {
-- 
2.43.0


From 0489221862f14ebea65b09ffabc1ee13e4d33009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:58 +0000
Subject: [PATCH 04/18] fix: malformed signature bytes must be an error, not a
 panic

ed25519's Signature::new panics if the scalar is out of range.
---
 stratumv2/src/noise/types.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/stratumv2/src/noise/types.rs b/stratumv2/src/noise/types.rs
index 475a9ba..1904337 100644
--- a/stratumv2/src/noise/types.rs
+++ b/stratumv2/src/noise/types.rs
@@ -1,7 +1,6 @@
 use crate::codec::{ByteParser, Deserializable, Serializable};
 use crate::error::Result;
 use rand::rngs::OsRng;
-use std::convert::TryInto;
 use std::io;
 
 /// AuthorityKeyPair is an ed25519_dalek::Keypair used as the Authentication Authority
@@ -61,6 +60,6 @@ impl Serializable for Signature {
 impl Deserializable for Signature {
     fn deserialize(parser: &mut ByteParser) -> Result<Self> {
         let signature_bytes = parser.next_by(64)?;
-        Ok(Signature::new(signature_bytes.try_into()?))
+        Ok(Signature::from_bytes(signature_bytes)?)
     }
 }
-- 
2.43.0


From aeceaf3e9a710278b667eb77172648370847524e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:58 +0000
Subject: [PATCH 05/18] fix: verify must reject certificates that are not valid
 yet

---
 stratumv2/src/noise/certificate_format.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/stratumv2/src/noise/certificate_format.rs b/stratumv2/src/noise/certificate_format.rs
index 9342589..882ad58 100644
--- a/stratumv2/src/noise/certificate_format.rs
+++ b/stratumv2/src/noise/certificate_format.rs
@@ -43,7 +43,14 @@ impl<'a> CertificateFormat<'a> {
     /// limits and whether the static public key was signed by the AuthorityKeyPair
     /// identifying the Mining Pool.
     pub fn verify(&self) -> Result<()> {
-        if unix_u32_now()? >= self.signature_noise_message.not_valid_after {
+        let now = unix_u32_now()?;
+        if now < self.signature_noise_message.valid_from {
+            return Err(Error::RequirementError(
+                "the signature noise message is not yet valid".into(),
+            ));
+        }
+
+        if now >= self.signature_noise_message.not_valid_after {
             return Err(Error::RequirementError(
                 "the signature noise message is expired".into(),
             ));
-- 
2.43.0


From b18fe08b9c811eac24a479d0b7fa4f0c4644054f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:58 +0000
Subject: [PATCH 06/18] fix: unix timestamps beyond 32 bits must be an error
 instead of wrapping

---
 stratumv2/src/types/unix_timestamp.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/stratumv2/src/types/unix_timestamp.rs b/stratumv2/src/types/unix_timestamp.rs
index 2c42c5f..ec4dd5c 100644
--- a/stratumv2/src/types/unix_timestamp.rs
+++ b/stratumv2/src/types/unix_timestamp.rs
@@ -1,11 +1,13 @@
-use crate::error::Result;
+use crate::error::{Error, Result};
+use std::convert::TryFrom;
 use std::time::SystemTime;
 
 /// Convert SystemTime to a Unix timestamp as a u32.
 pub fn system_unix_time_to_u32(time: &SystemTime) -> Result<u32> {
-    Ok(time
-        .duration_since(SystemTime::UNIX_EPOCH)
-        .map(|duration| duration.as_secs() as u32)?)
+    let secs = time.duration_since(SystemTime::UNIX_EPOCH)?.as_secs();
+
+    u32::try_from(secs)
+        .map_err(|_| Error::RequirementError("unix time does not fit in 32 bits".into()))
 }
 
 /// A helper function that returns the current unix time in seconds as a u32.
-- 
2.43.0


From 7c90ac049e125ab2b8693d2b46d733bb8ad5086a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:58 +0000
Subject: [PATCH 07/18] fix: reading the second handshake message must not
 panic on its size

A message of 80 to 95 bytes underflowed, and one with more than 2048 bytes of
payload overran a fixed buffer.
---
 stratumv2/nx-noise/src/state.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/stratumv2/nx-noise/src/state.rs b/stratumv2/nx-noise/src/state.rs
index b3c458a..ce96093 100644
--- a/stratumv2/nx-noise/src/state.rs
+++ b/stratumv2/nx-noise/src/state.rs
@@ -221,14 +221,13 @@ impl SymmetricState {
     }
 
     pub(crate) fn decrypt_and_hash(&mut self, in_out: &mut [u8]) -> Result<(), NoiseError> {
-        let mut temp: [u8; 2048] = [0u8; 2048];
-        temp[..in_out.len()].copy_from_slice(in_out);
+        let temp = in_out.to_vec();
         let (ciphertext, mac) = in_out.split_at_mut(in_out.len() - MAC_LENGTH);
         let mut temp_mac: [u8; MAC_LENGTH] = [0u8; MAC_LENGTH];
         temp_mac.copy_from_slice(mac);
         self.cs
             .decrypt_with_ad(&self.h.as_bytes()[..], ciphertext, &mut temp_mac)?;
-        self.mix_hash(&temp[..in_out.len()]);
+        self.mix_hash(&temp);
         Ok(())
     }
 
@@ -379,6 +378,9 @@ impl HandshakeState {
         if in_out.len() < MAC_LENGTH + DHLEN {
             return Err(NoiseError::MissingreError);
         }
+        if in_out.len() < DHLEN + DHLEN + MAC_LENGTH + MAC_LENGTH {
+            return Err(NoiseError::MissingHsMacError);
+        }
         let (re, in_out) = in_out.split_at_mut(DHLEN);
         self.re = PublicKey::from_bytes(from_slice_hashlen(re))?;
         self.ss.mix_hash(&self.re.as_bytes()[..DHLEN]);
-- 
2.43.0


From c4c44dee20417dc5d00886810a69f7398c762cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:58 +0000
Subject: [PATCH 08/18] fix: check the size of the second handshake message
 before changing state

A too small buffer was refused only after the transcript had been changed, so
repeating the call with a proper buffer produced a message the initiator rejects.
---
 stratumv2/nx-noise/src/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stratumv2/nx-noise/src/state.rs b/stratumv2/nx-noise/src/state.rs
index ce96093..f815268 100644
--- a/stratumv2/nx-noise/src/state.rs
+++ b/stratumv2/nx-noise/src/state.rs
@@ -328,7 +328,7 @@ impl HandshakeState {
         &mut self,
         in_out: &mut [u8],
     ) -> Result<(Hash, CipherState, CipherState), NoiseError> {
-        if in_out.len() < DHLEN {
+        if in_out.len() < DHLEN + DHLEN + MAC_LENGTH + MAC_LENGTH {
             return Err(NoiseError::MissingneError);
         }
         if self.e.is_empty() {
-- 
2.43.0


From 5049d087358e86c56652afc4368b11aa35d18248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:58 +0000
Subject: [PATCH 09/18] fix: rekey_remote_cipherstate must rekey cs2

---
 stratumv2/nx-noise/src/noisesession.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stratumv2/nx-noise/src/noisesession.rs b/stratumv2/nx-noise/src/noisesession.rs
index 6c4cb06..ae4e2f9 100644
--- a/stratumv2/nx-noise/src/noisesession.rs
+++ b/stratumv2/nx-noise/src/noisesession.rs
@@ -65,7 +65,7 @@ impl NoiseSession {
 
     /// Calls the [Rekey](https://noiseprotocol.org/noise.html#rekey) method for `cs2`
     pub fn rekey_remote_cipherstate(&mut self) {
-        self.cs1.rekey()
+        self.cs2.rekey()
     }
 
     /// `NoiseSession` destructor function.
-- 
2.43.0


From a7bfe2fa84b827d0b007fbe8b035b5e2d7730580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:58 +0000
Subject: [PATCH 10/18] fix: rekeying a cleared cipher state must not install a
 predictable key

---
 stratumv2/nx-noise/src/state.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stratumv2/nx-noise/src/state.rs b/stratumv2/nx-noise/src/state.rs
index f815268..cba6362 100644
--- a/stratumv2/nx-noise/src/state.rs
+++ b/stratumv2/nx-noise/src/state.rs
@@ -96,6 +96,9 @@ impl CipherState {
 
     #[allow(dead_code)]
     pub(crate) fn rekey(&mut self) {
+        if !self.has_key() {
+            return;
+        }
         let mut in_out = EMPTY_KEY;
         chacha20poly1305::key(&self.k.as_bytes())
             .nonce(&[0xFFu8; NONCE_LENGTH])
-- 
2.43.0


From e9ffc9feccd043f8710daac9cd42082bfc5d70b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:58 +0000
Subject: [PATCH 11/18] fix: refuse handshake messages out of turn

Sending twice put an initiator into transport mode without any counterparty,
with keys derived from public values.
---
 stratumv2/nx-noise/src/noisesession.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/stratumv2/nx-noise/src/noisesession.rs b/stratumv2/nx-noise/src/noisesession.rs
index ae4e2f9..f46701d 100644
--- a/stratumv2/nx-noise/src/noisesession.rs
+++ b/stratumv2/nx-noise/src/noisesession.rs
@@ -147,6 +147,10 @@ impl NoiseSession {
         if in_out.len() < MAC_LENGTH || in_out.len() > MAX_MESSAGE {
             return Err(NoiseError::UnsupportedMessageLengthError);
         }
+        // The initiator writes the first message, the responder the second.
+        if (self.mc == 0 && !self.i) || (self.mc == 1 && self.i) {
+            return Err(NoiseError::InvalidInputError);
+        }
         if self.mc == 0 {
             self.hs.write_message_a(in_out)?;
         } else if self.mc == 1 {
@@ -181,6 +185,10 @@ impl NoiseSession {
         if in_out.len() < MAC_LENGTH || in_out.len() > MAX_MESSAGE {
             return Err(NoiseError::UnsupportedMessageLengthError);
         }
+        // The responder reads the first message, the initiator the second.
+        if (self.mc == 0 && self.i) || (self.mc == 1 && !self.i) {
+            return Err(NoiseError::InvalidInputError);
+        }
 
         if self.mc == 0 {
             self.hs.read_message_a(in_out)?;
-- 
2.43.0


From 8083c17de4ed4faac1b3e9ee83c307491654c0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:58 +0000
Subject: [PATCH 12/18] fix: NoiseError must not be its own source

---
 stratumv2/nx-noise/src/error.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stratumv2/nx-noise/src/error.rs b/stratumv2/nx-noise/src/error.rs
index 598db8a..9570065 100644
--- a/stratumv2/nx-noise/src/error.rs
+++ b/stratumv2/nx-noise/src/error.rs
@@ -47,6 +47,9 @@ impl std::fmt::Display for NoiseError {
 
 impl Error for NoiseError {
     fn source(&self) -> Option<&(dyn Error + 'static)> {
-        Some(self)
+        match *self {
+            NoiseError::Hex(ref e) => Some(e),
+            _ => None,
+        }
     }
 }
-- 
2.43.0


From 5b76b4e78a0e5030b39054e70e2b6f178777e3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:58 +0000
Subject: [PATCH 13/18] fix: PublicKey::from_str must refuse forbidden values
 like from_bytes

---
 stratumv2/nx-noise/src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stratumv2/nx-noise/src/types.rs b/stratumv2/nx-noise/src/types.rs
index 0fe14bf..c9ac781 100644
--- a/stratumv2/nx-noise/src/types.rs
+++ b/stratumv2/nx-noise/src/types.rs
@@ -358,7 +358,7 @@ impl std::str::FromStr for PublicKey {
     /// ```
     fn from_str(key: &str) -> Result<Self, NoiseError> {
         let pk = decode_str_32(key)?;
-        Ok(Self::from_hacl_public_key(curve25519::PublicKey(pk)))
+        Self::from_bytes(pk)
     }
 }
 
-- 
2.43.0


From 086e8b15a457c2042ddcaa14190e81506f31d3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:23 +0000
Subject: [PATCH 14/18] verification hook: transport nonce accessors under
 cfg(sv2_verif)

---
 stratumv2/nx-noise/src/noisesession.rs | 18 ++++++++++++++++++
 stratumv2/nx-noise/src/types.rs        | 10 ++++++++++
 2 files changed, 28 insertions(+)

diff --git a/stratumv2/nx-noise/src/noisesession.rs b/stratumv2/nx-noise/src/noisesession.rs
index f46701d..1a1386b 100644
--- a/stratumv2/nx-noise/src/noisesession.rs
+++ b/stratumv2/nx-noise/src/noisesession.rs
@@ -209,3 +209,21 @@ impl NoiseSession {
         Ok(())
     }
 }
+
+/// Verification hooks, compiled only with `--cfg sv2_verif`.
+#[cfg(sv2_verif)]
+impl NoiseSession {
+    /// Returns the nonces of `cs1` and `cs2`.
+    pub fn verif_nonces(&self) -> (u64, u64) {
+        (
+            self.cs1.get_nonce().verif_value(),
+            self.cs2.get_nonce().verif_value(),
+        )
+    }
+
+    /// Sets the nonces of `cs1` and `cs2`.
+    pub fn verif_set_nonces(&mut self, n1: u64, n2: u64) {
+        self.cs1.set_nonce(crate::types::Nonce::verif_new(n1));
+        self.cs2.set_nonce(crate::types::Nonce::verif_new(n2));
+    }
+}
diff --git a/stratumv2/nx-noise/src/types.rs b/stratumv2/nx-noise/src/types.rs
index c9ac781..f61ace7 100644
--- a/stratumv2/nx-noise/src/types.rs
+++ b/stratumv2/nx-noise/src/types.rs
@@ -381,6 +381,16 @@ impl Nonce {
     }
 }
 
+#[cfg(sv2_verif)]
+impl Nonce {
+    pub(crate) fn verif_new(n: u64) -> Self {
+        Self { n }
+    }
+    pub(crate) fn verif_value(self) -> u64 {
+        self.n
+    }
+}
+
 #[derive(Clone, PartialEq)]
 pub struct Keypair {
     private_key: PrivateKey,
-- 
2.43.0


From 2abf6a0a76c9325d6d0806d8f058f0905197b1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:22 +0000
Subject: [PATCH 15/18] fix: accept first handshake messages with a payload
 shorter than a MAC

Message A carries its payload in the clear, so DHLEN bytes are enough. The
responder refused 32 to 47 byte messages that the initiator happily produces.
---
 stratumv2/nx-noise/src/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stratumv2/nx-noise/src/state.rs b/stratumv2/nx-noise/src/state.rs
index cba6362..b709efb 100644
--- a/stratumv2/nx-noise/src/state.rs
+++ b/stratumv2/nx-noise/src/state.rs
@@ -361,7 +361,7 @@ impl HandshakeState {
     }
 
     pub(crate) fn read_message_a(&mut self, in_out: &mut [u8]) -> Result<(), NoiseError> {
-        if in_out.len() < MAC_LENGTH + DHLEN {
+        if in_out.len() < DHLEN {
             return Err(NoiseError::MissingreError);
         }
 
-- 
2.43.0


From ed90d7779276d7a6b6ebff8ccdf829cf365ca6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:22 +0000
Subject: [PATCH 16/18] fix: rekey with the nonce Noise prescribes

REKEY(k) is ENCRYPT(k, 2^64-1, "", zeros), and a ChaChaPoly nonce is 32 zero
bits followed by the little-endian counter. All twelve bytes were 0xFF, so a
session could not follow a rekey by any other Noise implementation.
---
 stratumv2/nx-noise/src/state.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stratumv2/nx-noise/src/state.rs b/stratumv2/nx-noise/src/state.rs
index b709efb..fc5999d 100644
--- a/stratumv2/nx-noise/src/state.rs
+++ b/stratumv2/nx-noise/src/state.rs
@@ -3,11 +3,11 @@
  * ---------------------------------------------------------------- */
 
 use crate::{
-    consts::{DHLEN, EMPTY_HASH, EMPTY_KEY, HASHLEN, MAC_LENGTH, NONCE_LENGTH, ZEROLEN},
+    consts::{DHLEN, EMPTY_HASH, EMPTY_KEY, HASHLEN, MAC_LENGTH, MAX_NONCE, ZEROLEN},
     error::NoiseError,
     prims::{decrypt, encrypt, hash, hash_with_context, hkdf},
     types::{Hash, Key, Keypair, Nonce, Psk, PublicKey},
-    utils::from_slice_hashlen,
+    utils::{from_slice_hashlen, prep_nonce},
 };
 use hacl_star::chacha20poly1305;
 use zeroize::Zeroize;
@@ -101,7 +101,7 @@ impl CipherState {
         }
         let mut in_out = EMPTY_KEY;
         chacha20poly1305::key(&self.k.as_bytes())
-            .nonce(&[0xFFu8; NONCE_LENGTH])
+            .nonce(&prep_nonce(MAX_NONCE))
             .encrypt(&ZEROLEN[..], &mut in_out[..], &mut [0u8; 16]);
         self.k.clear();
         self.k = Key::from_bytes(in_out);
-- 
2.43.0


From 615f2772f2a639d14471700bbfec6261e5489902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:10 +0000
Subject: [PATCH 17/18] fix: refuse certificates under authority keys of small
 order

A small order point is a well formed key nobody holds the secret of, and the
signature equation can be satisfied for it without one: anybody could forge a
certificate for such an authority key.  Verify strictly, as ed25519-dalek
recommends.
---
 stratumv2/src/noise/certificate_format.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/stratumv2/src/noise/certificate_format.rs b/stratumv2/src/noise/certificate_format.rs
index 882ad58..e432c50 100644
--- a/stratumv2/src/noise/certificate_format.rs
+++ b/stratumv2/src/noise/certificate_format.rs
@@ -4,7 +4,6 @@ use crate::noise::signature_noise_message::SignatureNoiseMessage;
 use crate::noise::types::{AuthorityPublicKey, StaticPublicKey};
 use crate::types::unix_timestamp::unix_u32_now;
 use bitcoin::util::base58;
-use ed25519_dalek::Verifier;
 use std::convert::TryInto;
 use std::io;
 
@@ -61,7 +60,7 @@ impl<'a> CertificateFormat<'a> {
 
         Ok(self
             .authority_public_key
-            .verify(&certificate, &self.signature_noise_message.signature)?)
+            .verify_strict(&certificate, &self.signature_noise_message.signature)?)
     }
 }
 
-- 
2.43.0


From 1878971e182c764781852da37016bb896bcd275f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:17 +0000
Subject: [PATCH 18/18] fix: take generated keys and channel ids from the
 operating system

Both came from rand's per-thread generator, which hands out the values it has buffered
to a process and its fork alike: the two could generate the same key pair.
---
 stratumv2/nx-noise/src/types.rs  | 6 +++---
 stratumv2/src/network/channel.rs | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/stratumv2/nx-noise/src/types.rs b/stratumv2/nx-noise/src/types.rs
index f61ace7..f0e549c 100644
--- a/stratumv2/nx-noise/src/types.rs
+++ b/stratumv2/nx-noise/src/types.rs
@@ -7,7 +7,7 @@ use crate::{
 };
 use constant_time_eq::constant_time_eq;
 use hacl_star::curve25519;
-use rand;
+use rand::rngs::OsRng;
 use zeroize::Zeroize;
 
 fn decode_str_32(s: &str) -> Result<[u8; DHLEN], NoiseError> {
@@ -408,10 +408,10 @@ impl Keypair {
             public_key: PublicKey::empty(),
         }
     }
-    /// Instanciates a `Keypair` by generating a `PrivateKey` from random values using `thread_rng()`, then deriving the corresponding `PublicKey`
+    /// Instanciates a `Keypair` by generating a `PrivateKey` from random values of the operating system, then deriving the corresponding `PublicKey`
     pub fn default() -> Self {
         let hacl_keypair: (curve25519::SecretKey, curve25519::PublicKey) =
-            curve25519::keypair(rand::thread_rng());
+            curve25519::keypair(OsRng::new().expect("no random values available"));
         Self {
             private_key: PrivateKey::from_hacl_secret_key(hacl_keypair.0),
             public_key: PublicKey::from_hacl_public_key(hacl_keypair.1),
diff --git a/stratumv2/src/network/channel.rs b/stratumv2/src/network/channel.rs
index a864f4d..c3d0639 100644
--- a/stratumv2/src/network/channel.rs
+++ b/stratumv2/src/network/channel.rs
@@ -1,7 +1,7 @@
 use crate::mining::{OpenExtendedMiningChannel, OpenStandardMiningChannel};
 use std::{collections::HashMap, sync::Mutex};
 
-use rand::Rng;
+use rand::{rngs::OsRng, Rng};
 
 /// ChanID is a type assigned to identify channels on a connection.
 /// The type de/serialzing for messaging is already handled using the native
@@ -10,7 +10,7 @@ pub type ChanID = u32;
 
 /// Generate a new random channel_id.
 pub fn new_channel_id() -> ChanID {
-    rand::thread_rng().gen_range(0, ChanID::MAX)
+    OsRng.gen_range(0, ChanID::MAX)
 }
 
 /// Represents a Channel opened on a connection. The Channel holds stateful
-- 
2.43.0

