From d69dce95cb0d328c9787c89454dee9e95191561e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:30 +0000
Subject: [PATCH 01/15] fix: encode the upper method bits of the message type
 at their RFC 5389 positions

---
 src/message.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index 1ac08c2..c70a474 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -569,9 +569,9 @@ impl Type {
         let method = self.method.as_u16();
         (method & 0b0000_0000_1111)
             | ((class & 0b01) << 4)
-            | ((method & 0b0000_0111_0000) << 5)
+            | ((method & 0b0000_0111_0000) << 1)
             | ((class & 0b10) << 7)
-            | ((method & 0b1111_1000_0000) << 9)
+            | ((method & 0b1111_1000_0000) << 2)
     }
 
     fn from_u16(value: u16) -> Result<Self> {
-- 
2.43.0


From 52e8c7c7a386091425398acec3393a76fb1ea2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 02/15] fix: read the CHANGE-REQUEST flags from the bits the
 encoder (and RFC 5780) uses

---
 src/rfc5780/attributes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rfc5780/attributes.rs b/src/rfc5780/attributes.rs
index c91492e..7f8aea0 100644
--- a/src/rfc5780/attributes.rs
+++ b/src/rfc5780/attributes.rs
@@ -121,7 +121,7 @@ impl ChangeRequestDecoder {
     }
 }
 impl_decode!(ChangeRequestDecoder, ChangeRequest, |item| {
-    Ok(ChangeRequest((item & 0x2) != 0, (item & 0x1) != 0))
+    Ok(ChangeRequest((item & 0x4) != 0, (item & 0x2) != 0))
 });
 
 /// [`ChangeRequest`] encoder.
-- 
2.43.0


From 54aa73ec61cd82f8c81d9ea805f0a451892d03b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:32 +0000
Subject: [PATCH 03/15] fix: encode the port of RESPONSE-PORT instead of zero

---
 src/rfc5780/attributes.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rfc5780/attributes.rs b/src/rfc5780/attributes.rs
index 7f8aea0..efdabcc 100644
--- a/src/rfc5780/attributes.rs
+++ b/src/rfc5780/attributes.rs
@@ -316,4 +316,6 @@ impl ResponsePortEncoder {
         Self::default()
     }
 }
-impl_encode!(ResponsePortEncoder, ResponsePort, |_item: Self::Item| 0u16);
+impl_encode!(ResponsePortEncoder, ResponsePort, |item: Self::Item| {
+    u32::from(item.0) << 16
+});
-- 
2.43.0


From 4fac574ab87a33fbeba029113077b1bc5261a99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:32 +0000
Subject: [PATCH 04/15] fix: do not leak attributes of a broken message into
 the next decoded message

---
 src/message.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index c70a474..a5a9ca2 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -447,12 +447,16 @@ impl<A: Attribute> Decode for MessageDecoder<A> {
     fn finish_decoding(&mut self) -> Result<Self::Item> {
         let (Type { method, class }, _, transaction_id) = track!(self.header.finish_decoding())?;
         match self.finish_decoding_with_header(method, class, transaction_id) {
-            Err(error) => Ok(Err(BrokenMessage {
-                method,
-                class,
-                transaction_id,
-                error,
-            })),
+            Err(error) => {
+                // Discards the attributes of the broken message that were already decoded
+                self.attributes = Default::default();
+                Ok(Err(BrokenMessage {
+                    method,
+                    class,
+                    transaction_id,
+                    error,
+                }))
+            }
             Ok(message) => Ok(Ok(message)),
         }
     }
-- 
2.43.0


From 62c43be620c15d3fcd105c4524a427e605ec19be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:33 +0000
Subject: [PATCH 05/15] fix: consume all header fields before rejecting a
 header with an invalid message type

---
 src/message.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message.rs b/src/message.rs
index a5a9ca2..4e37619 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -300,10 +300,10 @@ impl Decode for MessageHeaderDecoder {
 
     fn finish_decoding(&mut self) -> Result<Self::Item> {
         let message_type = track!(self.message_type.finish_decoding())?;
-        let message_type = track!(Type::from_u16(message_type))?;
         let message_len = track!(self.message_len.finish_decoding())?;
         let magic_cookie = track!(self.magic_cookie.finish_decoding())?;
         let transaction_id = TransactionId::new(track!(self.transaction_id.finish_decoding())?);
+        let message_type = track!(Type::from_u16(message_type))?;
         track!(self.check_magic_cookie(magic_cookie); message_type, message_len, transaction_id)?;
         Ok((message_type, message_len, transaction_id))
     }
-- 
2.43.0


From 0dc3f72a8af55e017dd5489c6935321888186c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 06/15] fix: do not overflow when calculating FINGERPRINT of a
 nearly 64 KiB message

---
 src/rfc5389/attributes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rfc5389/attributes.rs b/src/rfc5389/attributes.rs
index b70cf90..774da8c 100644
--- a/src/rfc5389/attributes.rs
+++ b/src/rfc5389/attributes.rs
@@ -251,8 +251,8 @@ impl Fingerprint {
     /// Calculates the CRC-32 value of `message` and returns a `Fingerprint` instance containing it.
     pub fn new<A: Attribute>(message: &Message<A>) -> Result<Self> {
         let mut bytes = track!(MessageEncoder::default().encode_into_bytes(message.clone()))?;
-        let final_len = bytes.len() as u16 - 20 + 8; // Adds `Fingerprint` attribute length
-        BigEndian::write_u16(&mut bytes[2..4], final_len);
+        let final_len = bytes.len() - 20 + 8; // Adds `Fingerprint` attribute length
+        BigEndian::write_u16(&mut bytes[2..4], final_len as u16);
         let crc32 = crc::Crc::<u32>::new(&crc::CRC_32_ISO_HDLC).checksum(&bytes[..]) ^ 0x5354_554e;
         Ok(Fingerprint { crc32 })
     }
-- 
2.43.0


From becf75576139affce69bffce7bb7257b9b5efe67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 07/15] fix: do not require the body bytes of the previous
 message before a header is decoded

---
 src/message.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index 4e37619..929f007 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -462,9 +462,12 @@ impl<A: Attribute> Decode for MessageDecoder<A> {
     }
 
     fn requiring_bytes(&self) -> ByteCount {
-        self.header
-            .requiring_bytes()
-            .add_for_decoding(self.attributes.requiring_bytes())
+        if self.header.is_idle() {
+            self.attributes.requiring_bytes()
+        } else {
+            // The length of the attribute part is unknown until the header has been decoded
+            self.header.requiring_bytes()
+        }
     }
 
     fn is_idle(&self) -> bool {
-- 
2.43.0


From 668dde832d3d7f6ccf51bcff110c2aba3ee89df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:20 +0000
Subject: [PATCH 08/15] fix: refuse to start encoding while another message is
 being encoded

---
 src/message.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/message.rs b/src/message.rs
index 929f007..c5ddb4b 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -515,6 +515,8 @@ impl<A: Attribute> Encode for MessageEncoder<A> {
     }
 
     fn start_encoding(&mut self, mut item: Self::Item) -> Result<()> {
+        track_assert!(self.is_idle(), ErrorKind::EncoderFull);
+
         let attributes_len = item.attributes.len();
         for i in 0..attributes_len {
             unsafe {
-- 
2.43.0


From 20789010da8b9b0b2720b12f68eb5317893bf720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:20 +0000
Subject: [PATCH 09/15] fix: keep the encoder usable after a message is
 rejected

---
 src/message.rs | 45 +++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index c5ddb4b..198e2f2 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -489,6 +489,27 @@ impl<A: Attribute> MessageEncoder<A> {
     pub fn new() -> Self {
         Self::default()
     }
+
+    fn start_encoding_fields(&mut self, item: Message<A>) -> Result<()> {
+        let message_type = Type {
+            class: item.class,
+            method: item.method,
+        };
+        track!(self.message_type.start_encoding(message_type.as_u16()))?;
+        track!(self.magic_cookie.start_encoding(MAGIC_COOKIE))?;
+        track!(self.transaction_id.start_encoding(item.transaction_id))?;
+        track!(self.attributes.start_encoding(item.attributes.into_iter()))?;
+
+        let message_len = self.attributes.exact_requiring_bytes();
+        track_assert!(
+            message_len < 0x10000,
+            ErrorKind::InvalidInput,
+            "Too large message length: actual={}, limit=0xFFFF",
+            message_len
+        );
+        track!(self.message_len.start_encoding(message_len as u16))?;
+        Ok(())
+    }
 }
 impl<A: Attribute> Default for MessageEncoder<A> {
     fn default() -> Self {
@@ -529,24 +550,12 @@ impl<A: Attribute> Encode for MessageEncoder<A> {
             }
         }
 
-        let message_type = Type {
-            class: item.class,
-            method: item.method,
-        };
-        track!(self.message_type.start_encoding(message_type.as_u16()))?;
-        track!(self.magic_cookie.start_encoding(MAGIC_COOKIE))?;
-        track!(self.transaction_id.start_encoding(item.transaction_id))?;
-        track!(self.attributes.start_encoding(item.attributes.into_iter()))?;
-
-        let message_len = self.attributes.exact_requiring_bytes();
-        track_assert!(
-            message_len < 0x10000,
-            ErrorKind::InvalidInput,
-            "Too large message length: actual={}, limit=0xFFFF",
-            message_len
-        );
-        track!(self.message_len.start_encoding(message_len as u16))?;
-        Ok(())
+        let result = self.start_encoding_fields(item);
+        if result.is_err() {
+            // Discards the fields of the rejected message
+            *self = Self::default();
+        }
+        result
     }
 
     fn requiring_bytes(&self) -> ByteCount {
-- 
2.43.0


From f629211058a772f980dc8d6fd611003901704e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:21 +0000
Subject: [PATCH 10/15] fix: count characters instead of bytes in
 Software::new_static

---
 src/rfc5389/attributes.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/rfc5389/attributes.rs b/src/rfc5389/attributes.rs
index 774da8c..c503976 100644
--- a/src/rfc5389/attributes.rs
+++ b/src/rfc5389/attributes.rs
@@ -676,7 +676,17 @@ impl Software {
     /// The length of `description` must be less than `128` characters.
     /// Panics if the string is longer.
     pub const fn new_static(description: &'static str) -> Self {
-        if description.len() >= 128 {
+        let bytes = description.as_bytes();
+        let mut chars = 0;
+        let mut i = 0;
+        while i < bytes.len() {
+            // Counts the bytes other than UTF-8 continuation bytes
+            if bytes[i] & 0b1100_0000 != 0b1000_0000 {
+                chars += 1;
+            }
+            i += 1;
+        }
+        if chars >= 128 {
             panic!("Description for `Software` cannot be longer than 128 characters.");
         }
         Self {
-- 
2.43.0


From a2040af65f3178edc037387fcd2bdb2241a42332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:22 +0000
Subject: [PATCH 11/15] fix: enable the documented length check of
 MobilityTicket::new

---
 src/rfc8016/attributes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rfc8016/attributes.rs b/src/rfc8016/attributes.rs
index f32ea79..3eef56a 100644
--- a/src/rfc8016/attributes.rs
+++ b/src/rfc8016/attributes.rs
@@ -3,7 +3,7 @@
 //! [RFC 8016]: https://tools.ietf.org/html/rfc8016
 
 use bytecodec::bytes::{BytesEncoder, RemainingBytesDecoder};
-use bytecodec::{ByteCount, Decode, Encode, Eos, Result, SizedEncode, TryTaggedDecode};
+use bytecodec::{ByteCount, Decode, Encode, Eos, ErrorKind, Result, SizedEncode, TryTaggedDecode};
 
 use crate::attribute::{Attribute, AttributeType};
 
@@ -83,7 +83,7 @@ impl MobilityTicket {
     ///
     /// Fails on exceeding length.
     pub fn new(data: Vec<u8>) -> Result<Self> {
-        //track_assert!(data.len() <= 0xFFFF, ErrorKind::InvalidInput);
+        track_assert!(data.len() <= 0xFFFF, ErrorKind::InvalidInput);
         Ok(MobilityTicket(data))
     }
 
-- 
2.43.0


From 14df3c4dad267fd3821772599e90630142b38cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:24 +0000
Subject: [PATCH 12/15] fix: treat an attribute cut off by the end of the
 message as a broken message

The end of the attribute part in the middle of an attribute went unnoticed
if enough bytes were in the last buffer. Depending on how the bytes were
split, the decoder then delivered a message without that attribute, and
decoded the next message starting in the middle of it.
---
 src/message.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/message.rs b/src/message.rs
index 198e2f2..39e4049 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -345,6 +345,10 @@ impl<A: Attribute> Decode for AttributesDecoder<A> {
                 Err(e) => {
                     self.last_error = Some(e);
                 }
+                Ok(_) if eos.is_reached() && !self.inner.is_idle() => {
+                    // The attribute part ends in the middle of an attribute
+                    self.last_error = Some(track!(ErrorKind::UnexpectedEos.error()).into());
+                }
                 Ok(size) => return Ok(size),
             }
         }
-- 
2.43.0


From 98c0c7ba90917cc474034a00663f417f40448bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:19 +0000
Subject: [PATCH 13/15] fix: a busy socket address encoder refuses a start
 without restarting its parts

---
 src/net.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/net.rs b/src/net.rs
index 993cd2c..377ac8f 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -142,6 +142,7 @@ impl Encode for SocketAddrEncoder {
     }
 
     fn start_encoding(&mut self, item: Self::Item) -> Result<()> {
+        track_assert!(self.is_idle(), ErrorKind::EncoderFull; item);
         track!(self.unused.start_encoding(0))?;
         if item.ip().is_ipv4() {
             track!(self.family.start_encoding(FAMILY_IPV4))?;
-- 
2.43.0


From 035a37948134effbf022d356f51a305d1d7fd51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:50 +0000
Subject: [PATCH 14/15] fix: a busy ERROR-CODE encoder refuses a start without
 restarting its parts

---
 src/rfc5389/attributes.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rfc5389/attributes.rs b/src/rfc5389/attributes.rs
index c503976..e96d311 100644
--- a/src/rfc5389/attributes.rs
+++ b/src/rfc5389/attributes.rs
@@ -62,6 +62,7 @@ macro_rules! impl_encode {
 
             #[allow(clippy::redundant_closure_call)]
             fn start_encoding(&mut self, item: Self::Item) -> Result<()> {
+                track_assert!(self.is_idle(), ErrorKind::EncoderFull; item);
                 track!(self.0.start_encoding($map_from(item)))
             }
 
-- 
2.43.0


From 15dd8bdd9c09417655ebec2fae90e517f0b6c09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:25 +0000
Subject: [PATCH 15/15] fix: an odd number of bytes is no UNKNOWN-ATTRIBUTES
 value, whatever way it is split

The standalone decoder took an odd number of bytes for a value when the end
of the stream was announced on its own, and the byte left over became part of
the next value.
---
 src/rfc5389/attributes.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/rfc5389/attributes.rs b/src/rfc5389/attributes.rs
index e96d311..73efa32 100644
--- a/src/rfc5389/attributes.rs
+++ b/src/rfc5389/attributes.rs
@@ -5,9 +5,11 @@ use crate::attribute::{Attribute, AttributeType};
 use crate::message::{Message, MessageEncoder};
 use crate::net::{socket_addr_xor, SocketAddrDecoder, SocketAddrEncoder};
 use crate::rfc5389::errors;
-use bytecodec::bytes::{BytesEncoder, CopyableBytesDecoder, Utf8Decoder, Utf8Encoder};
-use bytecodec::combinator::{Collect, PreEncode, Repeat};
-use bytecodec::fixnum::{U16beDecoder, U16beEncoder, U32beDecoder, U32beEncoder};
+use bytecodec::bytes::{
+    BytesEncoder, CopyableBytesDecoder, RemainingBytesDecoder, Utf8Decoder, Utf8Encoder,
+};
+use bytecodec::combinator::{PreEncode, Repeat};
+use bytecodec::fixnum::{U16beEncoder, U32beDecoder, U32beEncoder};
 use bytecodec::tuple::{TupleDecoder, TupleEncoder};
 use bytecodec::{
     ByteCount, Decode, Encode, EncodeExt, Eos, Error, ErrorKind, Result, SizedEncode,
@@ -766,20 +768,23 @@ impl Attribute for UnknownAttributes {
 
 /// [`UnknownAttributes`] decoder.
 #[derive(Debug, Default)]
-pub struct UnknownAttributesDecoder(Collect<U16beDecoder, Vec<u16>>);
+pub struct UnknownAttributesDecoder(RemainingBytesDecoder);
 impl UnknownAttributesDecoder {
     /// Makes a new `UnknownAttributesDecoder` instance.
     pub fn new() -> Self {
         Self::default()
     }
 }
-impl_decode!(UnknownAttributesDecoder, UnknownAttributes, |vs: Vec<
-    u16,
->| Ok(
-    UnknownAttributes {
-        unknowns: vs.into_iter().map(AttributeType::new).collect()
-    }
-));
+impl_decode!(UnknownAttributesDecoder, UnknownAttributes, |bytes: Vec<
+    u8,
+>| {
+    track_assert_eq!(bytes.len() % 2, 0, ErrorKind::InvalidInput);
+    let unknowns = bytes
+        .chunks_exact(2)
+        .map(|b| AttributeType::new(BigEndian::read_u16(b)))
+        .collect();
+    Ok(UnknownAttributes { unknowns })
+});
 
 /// [`UnknownAttributes`] encoder.
 #[derive(Debug, Default)]
-- 
2.43.0

