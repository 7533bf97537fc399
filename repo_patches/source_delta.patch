From 0df29b59c218e58ca76975284bee567ea8aedf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:05 +0000
Subject: [PATCH 01/14] fix: encode the bits of methods from 0x010 upwards at
 their RFC 5389 positions

Type::as_u16 shifted bits M4-M6 by 5 and M7-M11 by 9 instead of 1 and 2, so
that these methods were encoded as different methods (or lost altogether).
---
 src/message.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index 1ac08c2..c70a474 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -569,9 +569,9 @@ impl Type {
         let method = self.method.as_u16();
         (method & 0b0000_0000_1111)
             | ((class & 0b01) << 4)
-            | ((method & 0b0000_0111_0000) << 5)
+            | ((method & 0b0000_0111_0000) << 1)
             | ((class & 0b10) << 7)
-            | ((method & 0b1111_1000_0000) << 9)
+            | ((method & 0b1111_1000_0000) << 2)
     }
 
     fn from_u16(value: u16) -> Result<Self> {
-- 
2.43.0


From c3e29c14474c12fc8435aea9be323fc9867076a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:05 +0000
Subject: [PATCH 02/14] fix: read the CHANGE-REQUEST flags from the bits RFC
 5780 assigns

The encoder writes "change IP" as 0x4 and "change port" as 0x2 (RFC 5780
section 7.2), but the decoder looked at 0x2 and 0x1.
---
 src/rfc5780/attributes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rfc5780/attributes.rs b/src/rfc5780/attributes.rs
index c91492e..7f8aea0 100644
--- a/src/rfc5780/attributes.rs
+++ b/src/rfc5780/attributes.rs
@@ -121,7 +121,7 @@ impl ChangeRequestDecoder {
     }
 }
 impl_decode!(ChangeRequestDecoder, ChangeRequest, |item| {
-    Ok(ChangeRequest((item & 0x2) != 0, (item & 0x1) != 0))
+    Ok(ChangeRequest((item & 0x4) != 0, (item & 0x2) != 0))
 });
 
 /// [`ChangeRequest`] encoder.
-- 
2.43.0


From 8a74fedf52d5da35783ae2d5feb2fcb151edac44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:05 +0000
Subject: [PATCH 03/14] fix: encode the port of RESPONSE-PORT

The encoder ignored the value and always wrote port 0.
---
 src/rfc5780/attributes.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rfc5780/attributes.rs b/src/rfc5780/attributes.rs
index 7f8aea0..833bbd2 100644
--- a/src/rfc5780/attributes.rs
+++ b/src/rfc5780/attributes.rs
@@ -316,4 +316,8 @@ impl ResponsePortEncoder {
         Self::default()
     }
 }
-impl_encode!(ResponsePortEncoder, ResponsePort, |_item: Self::Item| 0u16);
+impl_encode!(
+    ResponsePortEncoder,
+    ResponsePort,
+    |item: Self::Item| u32::from(item.0) << 16
+);
-- 
2.43.0


From ad40b73ae2948754a78e47fab59f1aa990612693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:08 +0000
Subject: [PATCH 04/14] fix: report an attribute that exceeds the end of its
 message

---
 src/message.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/message.rs b/src/message.rs
index c70a474..eb7ae30 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -345,6 +345,10 @@ impl<A: Attribute> Decode for AttributesDecoder<A> {
                 Err(e) => {
                     self.last_error = Some(e);
                 }
+                Ok(_) if eos.is_reached() && !self.inner.is_idle() => {
+                    // The last attribute exceeds the end of the message
+                    self.last_error = Some(track!(Error::from(ErrorKind::UnexpectedEos)));
+                }
                 Ok(size) => return Ok(size),
             }
         }
-- 
2.43.0


From 42724459ae07dc896bffa7272216b2f1ce750f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:36 +0000
Subject: [PATCH 05/14] fix: do not count a previous message's attribute part
 as required bytes

---
 src/message.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index eb7ae30..56c73ed 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -462,9 +462,12 @@ impl<A: Attribute> Decode for MessageDecoder<A> {
     }
 
     fn requiring_bytes(&self) -> ByteCount {
-        self.header
-            .requiring_bytes()
-            .add_for_decoding(self.attributes.requiring_bytes())
+        if self.header.is_idle() {
+            self.attributes.requiring_bytes()
+        } else {
+            // The length of the attribute part is not known until the header has been decoded
+            self.header.requiring_bytes()
+        }
     }
 
     fn is_idle(&self) -> bool {
-- 
2.43.0


From 8d3224de197e67f9e76cbdb30861a05817284c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:03 +0000
Subject: [PATCH 06/14] fix: drop the attributes of a broken message

---
 src/message.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index 56c73ed..dad2dc0 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -451,12 +451,16 @@ impl<A: Attribute> Decode for MessageDecoder<A> {
     fn finish_decoding(&mut self) -> Result<Self::Item> {
         let (Type { method, class }, _, transaction_id) = track!(self.header.finish_decoding())?;
         match self.finish_decoding_with_header(method, class, transaction_id) {
-            Err(error) => Ok(Err(BrokenMessage {
-                method,
-                class,
-                transaction_id,
-                error,
-            })),
+            Err(error) => {
+                // The attributes decoded so far must not leak into the next message
+                self.attributes = Default::default();
+                Ok(Err(BrokenMessage {
+                    method,
+                    class,
+                    transaction_id,
+                    error,
+                }))
+            }
             Ok(message) => Ok(Ok(message)),
         }
     }
-- 
2.43.0


From 6a5f22521b3ea176e5fb8246d58b9c04ffec2f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:39 +0000
Subject: [PATCH 07/14] fix: reset the decoder after it rejected a message

---
 src/message.rs | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index dad2dc0..cecb973 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -397,6 +397,18 @@ impl<A: Attribute> MessageDecoder<A> {
         Self::default()
     }
 
+    fn decode_message(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
+        let mut offset = 0;
+        if !self.header.is_idle() {
+            bytecodec_try_decode!(self.header, offset, buf, eos);
+
+            let message_len = self.header.peek().expect("never fails").1;
+            track!(self.attributes.set_expected_bytes(u64::from(message_len)))?;
+        }
+        bytecodec_try_decode!(self.attributes, offset, buf, eos);
+        Ok(offset)
+    }
+
     fn finish_decoding_with_header(
         &mut self,
         method: Method,
@@ -437,19 +449,23 @@ impl<A: Attribute> Decode for MessageDecoder<A> {
     type Item = DecodedMessage<A>;
 
     fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
-        let mut offset = 0;
-        if !self.header.is_idle() {
-            bytecodec_try_decode!(self.header, offset, buf, eos);
-
-            let message_len = self.header.peek().expect("never fails").1;
-            track!(self.attributes.set_expected_bytes(u64::from(message_len)))?;
+        let result = self.decode_message(buf, eos);
+        if result.is_err() {
+            // The rejected message must not affect the next one
+            *self = Self::default();
         }
-        bytecodec_try_decode!(self.attributes, offset, buf, eos);
-        Ok(offset)
+        result
     }
 
     fn finish_decoding(&mut self) -> Result<Self::Item> {
-        let (Type { method, class }, _, transaction_id) = track!(self.header.finish_decoding())?;
+        let (Type { method, class }, _, transaction_id) =
+            match track!(self.header.finish_decoding()) {
+                Err(error) => {
+                    *self = Self::default();
+                    return Err(error);
+                }
+                Ok(header) => header,
+            };
         match self.finish_decoding_with_header(method, class, transaction_id) {
             Err(error) => {
                 // The attributes decoded so far must not leak into the next message
-- 
2.43.0


From 296f2a307adbfce39004fac8681dd52ca16d76b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:00 +0000
Subject: [PATCH 08/14] fix: pad an attribute by the length its value has when
 it is encoded

---
 src/attribute.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/attribute.rs b/src/attribute.rs
index bec8de4..d846dcb 100644
--- a/src/attribute.rs
+++ b/src/attribute.rs
@@ -525,7 +525,11 @@ impl<T: Attribute> Encode for LosslessAttributeEncoder<T> {
             self.known_value.exact_requiring_bytes() + self.unknown_value.exact_requiring_bytes();
         track_assert!(value_len < 0x10000, ErrorKind::InvalidInput; value_len);
 
-        let padding = padding.unwrap_or_else(|| Padding::new(value_len as usize));
+        // The received padding is kept unless the value has got another length since then
+        let fresh_padding = Padding::new(value_len as usize);
+        let padding = padding
+            .filter(|p| p.len == fresh_padding.len)
+            .unwrap_or(fresh_padding);
         track!(self.value_len.start_encoding(value_len as u16))?;
         track!(self.padding.start_encoding(padding))?;
         Ok(())
-- 
2.43.0


From 05c849f57088265788aaa6412f42e3bf841d04b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 09/14] fix: refuse FINGERPRINT and MESSAGE-INTEGRITY for
 messages they do not fit in

---
 src/rfc5389/attributes.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rfc5389/attributes.rs b/src/rfc5389/attributes.rs
index b70cf90..1b63acc 100644
--- a/src/rfc5389/attributes.rs
+++ b/src/rfc5389/attributes.rs
@@ -251,8 +251,9 @@ impl Fingerprint {
     /// Calculates the CRC-32 value of `message` and returns a `Fingerprint` instance containing it.
     pub fn new<A: Attribute>(message: &Message<A>) -> Result<Self> {
         let mut bytes = track!(MessageEncoder::default().encode_into_bytes(message.clone()))?;
-        let final_len = bytes.len() as u16 - 20 + 8; // Adds `Fingerprint` attribute length
-        BigEndian::write_u16(&mut bytes[2..4], final_len);
+        let final_len = bytes.len() - 20 + 8; // Adds `Fingerprint` attribute length
+        track_assert!(final_len < 0x10000, ErrorKind::InvalidInput; final_len);
+        BigEndian::write_u16(&mut bytes[2..4], final_len as u16);
         let crc32 = crc::Crc::<u32>::new(&crc::CRC_32_ISO_HDLC).checksum(&bytes[..]) ^ 0x5354_554e;
         Ok(Fingerprint { crc32 })
     }
@@ -462,6 +463,7 @@ impl MessageIntegrity {
     fn message_into_bytes<A: Attribute>(message: Message<A>) -> Result<Vec<u8>> {
         let mut bytes = track!(MessageEncoder::default().encode_into_bytes(message))?;
         let adjusted_len = bytes.len() - 20 /*msg header*/+ 4 /*attr header*/ + 20 /*hmac*/;
+        track_assert!(adjusted_len < 0x10000, ErrorKind::InvalidInput; adjusted_len);
         BigEndian::write_u16(&mut bytes[2..4], adjusted_len as u16);
         Ok(bytes)
     }
-- 
2.43.0


From eef5445c97bd864c8c3ecce66a5a775b5e81f2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:25 +0000
Subject: [PATCH 10/14] fix: keep the message encoder intact when a message is
 refused

---
 src/message.rs | 60 +++++++++++++++++++++++++++++---------------------
 1 file changed, 35 insertions(+), 25 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index cecb973..f4140f8 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -509,32 +509,8 @@ impl<A: Attribute> MessageEncoder<A> {
     pub fn new() -> Self {
         Self::default()
     }
-}
-impl<A: Attribute> Default for MessageEncoder<A> {
-    fn default() -> Self {
-        MessageEncoder {
-            message_type: Default::default(),
-            message_len: Default::default(),
-            magic_cookie: Default::default(),
-            transaction_id: Default::default(),
-            attributes: Default::default(),
-        }
-    }
-}
-impl<A: Attribute> Encode for MessageEncoder<A> {
-    type Item = Message<A>;
 
-    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
-        let mut offset = 0;
-        bytecodec_try_encode!(self.message_type, offset, buf, eos);
-        bytecodec_try_encode!(self.message_len, offset, buf, eos);
-        bytecodec_try_encode!(self.magic_cookie, offset, buf, eos);
-        bytecodec_try_encode!(self.transaction_id, offset, buf, eos);
-        bytecodec_try_encode!(self.attributes, offset, buf, eos);
-        Ok(offset)
-    }
-
-    fn start_encoding(&mut self, mut item: Self::Item) -> Result<()> {
+    fn start_encoding_message(&mut self, mut item: Message<A>) -> Result<()> {
         let attributes_len = item.attributes.len();
         for i in 0..attributes_len {
             unsafe {
@@ -566,6 +542,40 @@ impl<A: Attribute> Encode for MessageEncoder<A> {
         track!(self.message_len.start_encoding(message_len as u16))?;
         Ok(())
     }
+}
+impl<A: Attribute> Default for MessageEncoder<A> {
+    fn default() -> Self {
+        MessageEncoder {
+            message_type: Default::default(),
+            message_len: Default::default(),
+            magic_cookie: Default::default(),
+            transaction_id: Default::default(),
+            attributes: Default::default(),
+        }
+    }
+}
+impl<A: Attribute> Encode for MessageEncoder<A> {
+    type Item = Message<A>;
+
+    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
+        let mut offset = 0;
+        bytecodec_try_encode!(self.message_type, offset, buf, eos);
+        bytecodec_try_encode!(self.message_len, offset, buf, eos);
+        bytecodec_try_encode!(self.magic_cookie, offset, buf, eos);
+        bytecodec_try_encode!(self.transaction_id, offset, buf, eos);
+        bytecodec_try_encode!(self.attributes, offset, buf, eos);
+        Ok(offset)
+    }
+
+    fn start_encoding(&mut self, item: Self::Item) -> Result<()> {
+        track_assert!(self.is_idle(), ErrorKind::EncoderFull);
+        let result = self.start_encoding_message(item);
+        if result.is_err() {
+            // The refused message must not affect the next one
+            *self = Self::default();
+        }
+        result
+    }
 
     fn requiring_bytes(&self) -> ByteCount {
         ByteCount::Finite(self.exact_requiring_bytes())
-- 
2.43.0


From 6154838d6ce9366eb715be698392b431939e2904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:22 +0000
Subject: [PATCH 11/14] fix: refuse a socket address while another one is being
 encoded

---
 src/net.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/net.rs b/src/net.rs
index 993cd2c..2b5d545 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -142,6 +142,7 @@ impl Encode for SocketAddrEncoder {
     }
 
     fn start_encoding(&mut self, item: Self::Item) -> Result<()> {
+        track_assert!(self.is_idle(), ErrorKind::EncoderFull);
         track!(self.unused.start_encoding(0))?;
         if item.ip().is_ipv4() {
             track!(self.family.start_encoding(FAMILY_IPV4))?;
-- 
2.43.0


From 6ad4b3a31c39b19f3c0b20383cac5bd015cc09c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:30 +0000
Subject: [PATCH 12/14] fix: count characters in Software::new_static

---
 src/rfc5389/attributes.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/rfc5389/attributes.rs b/src/rfc5389/attributes.rs
index 1b63acc..72bac45 100644
--- a/src/rfc5389/attributes.rs
+++ b/src/rfc5389/attributes.rs
@@ -678,7 +678,16 @@ impl Software {
     /// The length of `description` must be less than `128` characters.
     /// Panics if the string is longer.
     pub const fn new_static(description: &'static str) -> Self {
-        if description.len() >= 128 {
+        let bytes = description.as_bytes();
+        let mut chars = 0;
+        let mut i = 0;
+        while i < bytes.len() {
+            if bytes[i] & 0b1100_0000 != 0b1000_0000 {
+                chars += 1; // not a UTF-8 continuation byte
+            }
+            i += 1;
+        }
+        if chars >= 128 {
             panic!("Description for `Software` cannot be longer than 128 characters.");
         }
         Self {
-- 
2.43.0


From ef9af6db1be2c25629a49cfb5dbd554dac8b5986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 13/14] fix: refuse mobility tickets longer than an attribute
 value

---
 src/rfc8016/attributes.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rfc8016/attributes.rs b/src/rfc8016/attributes.rs
index f32ea79..58fec6e 100644
--- a/src/rfc8016/attributes.rs
+++ b/src/rfc8016/attributes.rs
@@ -3,7 +3,7 @@
 //! [RFC 8016]: https://tools.ietf.org/html/rfc8016
 
 use bytecodec::bytes::{BytesEncoder, RemainingBytesDecoder};
-use bytecodec::{ByteCount, Decode, Encode, Eos, Result, SizedEncode, TryTaggedDecode};
+use bytecodec::{ByteCount, Decode, Encode, Eos, ErrorKind, Result, SizedEncode, TryTaggedDecode};
 
 use crate::attribute::{Attribute, AttributeType};
 
@@ -81,9 +81,9 @@ impl MobilityTicket {
 
     /// Makes a new, filled `MobilityTicket` instance.
     ///
-    /// Fails on exceeding length.
+    /// Fails with an `ErrorKind::InvalidInput` error if `data` is longer than 65535 bytes.
     pub fn new(data: Vec<u8>) -> Result<Self> {
-        //track_assert!(data.len() <= 0xFFFF, ErrorKind::InvalidInput);
+        track_assert!(data.len() <= 0xFFFF, ErrorKind::InvalidInput);
         Ok(MobilityTicket(data))
     }
 
-- 
2.43.0


From 0c39547ae1b553e321718e99dc4f74d6c24062a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:47 +0000
Subject: [PATCH 14/14] fix: refuse an error code while another one is being
 encoded

---
 src/rfc5389/attributes.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rfc5389/attributes.rs b/src/rfc5389/attributes.rs
index 72bac45..7f386c6 100644
--- a/src/rfc5389/attributes.rs
+++ b/src/rfc5389/attributes.rs
@@ -62,6 +62,7 @@ macro_rules! impl_encode {
 
             #[allow(clippy::redundant_closure_call)]
             fn start_encoding(&mut self, item: Self::Item) -> Result<()> {
+                track_assert!(self.0.is_idle(), ErrorKind::EncoderFull);
                 track!(self.0.start_encoding($map_from(item)))
             }
 
-- 
2.43.0

