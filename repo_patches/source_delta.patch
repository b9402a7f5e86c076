From 7df568cfbe1d9552546c4cf1e283bd46dee22801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:38 +0000
Subject: [PATCH 01/19] fix: use the flag bit positions of the RSocket protocol

The flags field is the low 10 bits of the type/flags word and its first bit
is Ignore (0x200), as the diagrams in this crate say; all flags were one bit
too low, so no other RSocket peer could understand a flagged frame.
---
 binate/src/frame/flags.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/binate/src/frame/flags.rs b/binate/src/frame/flags.rs
index eae215a..b3a7e98 100644
--- a/binate/src/frame/flags.rs
+++ b/binate/src/frame/flags.rs
@@ -155,21 +155,21 @@ bitflags! {
     /// Frame header flags.
     pub struct Flags: u16 {
         /// The frame can be ignored.
-        const IGNORE           = 0b01_0000_0000;
+        const IGNORE           = 0b10_0000_0000;
         /// Metadata present.
-        const METADATA         = 0b00_1000_0000;
+        const METADATA         = 0b01_0000_0000;
         /// More fragments follow this fragment.
-        const FOLLOWS          = 0b00_0100_0000;
+        const FOLLOWS          = 0b00_1000_0000;
         /// Client requests resume capability if possible.
-        const RESUME           = 0b00_0100_0000;
+        const RESUME           = 0b00_1000_0000;
         /// Respond with KEEPALIVE.
-        const RESPOND          = 0b00_0100_0000;
+        const RESPOND          = 0b00_1000_0000;
         /// Bit to indicate stream completion.
-        const COMPLETE         = 0b00_0010_0000;
+        const COMPLETE         = 0b00_0100_0000;
         /// Will honor LEASE.
-        const LEASE            = 0b00_0010_0000;
+        const LEASE            = 0b00_0100_0000;
         /// Bit to indicate Next (Payload Data and/or Metadata present).
-        const NEXT             = 0b00_0001_0000;
+        const NEXT             = 0b00_0010_0000;
     }
 }
 
-- 
2.43.0


From 9cde534a633811a16b7f01d330f1fba0c0ec50a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:25 +0000
Subject: [PATCH 02/19] fix: write and read the metadata length only if the
 Metadata flag is set

The 24-bit metadata length is part of a frame only if it carries metadata.
It was always written and always read, so frames without metadata were
unreadable for other RSocket peers and theirs were misread here; metadata
that is present but empty was lost.
---
 binate/src/frame/codec/payload.rs          | 15 +++++++--------
 binate/src/frame/codec/request_channel.rs  | 15 +++++++--------
 binate/src/frame/codec/request_fnf.rs      | 15 +++++++--------
 binate/src/frame/codec/request_response.rs | 15 +++++++--------
 binate/src/frame/codec/request_stream.rs   | 15 +++++++--------
 binate/src/frame/codec/setup.rs            | 15 ++++++++-------
 binate/src/frame/visit.rs                  |  7 +++----
 7 files changed, 46 insertions(+), 51 deletions(-)

diff --git a/binate/src/frame/codec/payload.rs b/binate/src/frame/codec/payload.rs
index 71033d5..a45a953 100644
--- a/binate/src/frame/codec/payload.rs
+++ b/binate/src/frame/codec/payload.rs
@@ -91,20 +91,19 @@ impl Encode for PayloadFrame {
     fn encode(&self, buf: &mut BytesMut) {
         buf.put_u32(self.stream_id);
         buf.put_u16(FrameType::PAYLOAD.bits() | self.flags.bits());
-        let u24 = U24::from_usize(
-            self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
-        );
-        buf.put_u8(u24.0);
-        buf.put_u16(u24.1);
+        if let Some(metadata) = self.payload.metadata() {
+            U24::from_usize(metadata.len()).encode(buf);
+        }
         self.payload.encode(buf);
     }
 
     fn len(&self) -> usize {
         // len(stream_id): 4
         // len(flags): 2
-        // len(metadata_len): 3
+        // len(metadata_len): 3, if there is metadata
         // len(payload)
-        9 + self.payload.len()
+        let metadata_len = if self.payload.has_metadata() { 3 } else { 0 };
+        6 + metadata_len + self.payload.len()
     }
 }
 
@@ -116,7 +115,7 @@ impl Decode for PayloadFrame {
         stream_id: u32,
         flags: Flags,
     ) -> Result<Self::Value> {
-        let payload = eat_payload(buf, true)?;
+        let payload = eat_payload(buf, flags.contains(Flags::METADATA))?;
         Ok(PayloadFrame { stream_id, flags, payload })
     }
 }
diff --git a/binate/src/frame/codec/request_channel.rs b/binate/src/frame/codec/request_channel.rs
index a3942b2..42a3965 100644
--- a/binate/src/frame/codec/request_channel.rs
+++ b/binate/src/frame/codec/request_channel.rs
@@ -103,21 +103,20 @@ impl Encode for RequestChannelFrame {
         buf.put_u32(self.stream_id);
         buf.put_u16(FrameType::REQUEST_CHANNEL.bits() | self.flags.bits());
         buf.put_u32(self.initial_request_n);
-        let u24 = U24::from_usize(
-            self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
-        );
-        buf.put_u8(u24.0);
-        buf.put_u16(u24.1);
+        if let Some(metadata) = self.payload.metadata() {
+            U24::from_usize(metadata.len()).encode(buf);
+        }
         self.payload.encode(buf);
     }
 
     fn len(&self) -> usize {
         // len(stream_id): 4
         // len(flags): 2
-        // len(metadata_len): 3
+        // len(metadata_len): 3, if there is metadata
         // len(initial_request_n): 4
         // len(payload)
-        13 + self.payload.len()
+        let metadata_len = if self.payload.has_metadata() { 3 } else { 0 };
+        10 + metadata_len + self.payload.len()
     }
 }
 
@@ -130,7 +129,7 @@ impl Decode for RequestChannelFrame {
         flags: Flags,
     ) -> Result<Self::Value> {
         let initial_request_n = eat_u31(buf)?;
-        let payload = eat_payload(buf, true)?;
+        let payload = eat_payload(buf, flags.contains(Flags::METADATA))?;
         Ok(RequestChannelFrame {
             stream_id,
             flags,
diff --git a/binate/src/frame/codec/request_fnf.rs b/binate/src/frame/codec/request_fnf.rs
index fedc700..0ec5ac2 100644
--- a/binate/src/frame/codec/request_fnf.rs
+++ b/binate/src/frame/codec/request_fnf.rs
@@ -75,20 +75,19 @@ impl Encode for RequestFnfFrame {
     fn encode(&self, buf: &mut BytesMut) {
         buf.put_u32(self.stream_id);
         buf.put_u16(FrameType::REQUEST_FNF.bits() | self.flags.bits());
-        let u24 = U24::from_usize(
-            self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
-        );
-        buf.put_u8(u24.0);
-        buf.put_u16(u24.1);
+        if let Some(metadata) = self.payload.metadata() {
+            U24::from_usize(metadata.len()).encode(buf);
+        }
         self.payload.encode(buf);
     }
 
     fn len(&self) -> usize {
         // len(stream_id): 4
         // len(flags): 2
-        // len(metadata_len): 3
+        // len(metadata_len): 3, if there is metadata
         // len(payload)
-        9 + self.payload.len()
+        let metadata_len = if self.payload.has_metadata() { 3 } else { 0 };
+        6 + metadata_len + self.payload.len()
     }
 }
 
@@ -100,7 +99,7 @@ impl Decode for RequestFnfFrame {
         stream_id: u32,
         flags: Flags,
     ) -> Result<Self::Value> {
-        let payload = eat_payload(buf, true)?;
+        let payload = eat_payload(buf, flags.contains(Flags::METADATA))?;
         Ok(RequestFnfFrame { stream_id, flags, payload })
     }
 }
diff --git a/binate/src/frame/codec/request_response.rs b/binate/src/frame/codec/request_response.rs
index aaeabb1..a82e282 100644
--- a/binate/src/frame/codec/request_response.rs
+++ b/binate/src/frame/codec/request_response.rs
@@ -75,20 +75,19 @@ impl Encode for RequestResponseFrame {
     fn encode(&self, buf: &mut BytesMut) {
         buf.put_u32(self.stream_id);
         buf.put_u16(FrameType::REQUEST_RESPONSE.bits() | self.flags.bits());
-        let u24 = U24::from_usize(
-            self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
-        );
-        buf.put_u8(u24.0);
-        buf.put_u16(u24.1);
+        if let Some(metadata) = self.payload.metadata() {
+            U24::from_usize(metadata.len()).encode(buf);
+        }
         self.payload.encode(buf);
     }
 
     fn len(&self) -> usize {
         // len(stream_id): 4
         // len(flags): 2
-        // len(metadata_len): 3
+        // len(metadata_len): 3, if there is metadata
         // len(payload)
-        9 + self.payload.len()
+        let metadata_len = if self.payload.has_metadata() { 3 } else { 0 };
+        6 + metadata_len + self.payload.len()
     }
 }
 
@@ -100,7 +99,7 @@ impl Decode for RequestResponseFrame {
         stream_id: u32,
         flags: Flags,
     ) -> Result<Self::Value> {
-        let payload = eat_payload(buf, true)?;
+        let payload = eat_payload(buf, flags.contains(Flags::METADATA))?;
         Ok(RequestResponseFrame { stream_id, flags, payload })
     }
 }
diff --git a/binate/src/frame/codec/request_stream.rs b/binate/src/frame/codec/request_stream.rs
index ab09fb4..ff88a2c 100644
--- a/binate/src/frame/codec/request_stream.rs
+++ b/binate/src/frame/codec/request_stream.rs
@@ -92,21 +92,20 @@ impl Encode for RequestStreamFrame {
         buf.put_u32(self.stream_id);
         buf.put_u16(FrameType::REQUEST_STREAM.bits() | self.flags.bits());
         buf.put_u32(self.initial_request_n);
-        let u24 = U24::from_usize(
-            self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
-        );
-        buf.put_u8(u24.0);
-        buf.put_u16(u24.1);
+        if let Some(metadata) = self.payload.metadata() {
+            U24::from_usize(metadata.len()).encode(buf);
+        }
         self.payload.encode(buf);
     }
 
     fn len(&self) -> usize {
         // len(stream_id): 4
         // len(flags): 2
-        // len(metadata_len): 3
+        // len(metadata_len): 3, if there is metadata
         // len(initial_request_n): 4
         // len(payload)
-        13 + self.payload.len()
+        let metadata_len = if self.payload.has_metadata() { 3 } else { 0 };
+        10 + metadata_len + self.payload.len()
     }
 }
 
@@ -119,7 +118,7 @@ impl Decode for RequestStreamFrame {
         flags: Flags,
     ) -> Result<Self::Value> {
         let initial_request_n = eat_u31(buf)?;
-        let payload = eat_payload(buf, true)?;
+        let payload = eat_payload(buf, flags.contains(Flags::METADATA))?;
         Ok(RequestStreamFrame { stream_id, flags, initial_request_n, payload })
     }
 }
diff --git a/binate/src/frame/codec/setup.rs b/binate/src/frame/codec/setup.rs
index 9054de5..2163b75 100644
--- a/binate/src/frame/codec/setup.rs
+++ b/binate/src/frame/codec/setup.rs
@@ -153,11 +153,9 @@ impl Encode for SetupFrame {
         buf.put_slice(&self.metadata_mimetype);
         buf.put_u8(self.data_mimetype.len() as u8);
         buf.put_slice(&self.data_mimetype);
-        let u24 = U24::from_usize(
-            self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
-        );
-        buf.put_u8(u24.0);
-        buf.put_u16(u24.1);
+        if let Some(metadata) = self.payload.metadata() {
+            U24::from_usize(metadata.len()).encode(buf);
+        }
         self.payload.encode(buf);
     }
 
@@ -183,7 +181,10 @@ impl Encode for SetupFrame {
 
         // len(metadata_length): 3
         // len(payload)
-        len += 3 + self.payload.len();
+        if self.payload.has_metadata() {
+            len += 3;
+        }
+        len += self.payload.len();
 
         len
     }
@@ -206,7 +207,7 @@ impl Decode for SetupFrame {
             eat_bytes(buf, metadata_mimetype_len as usize)?;
         let data_mimetype_len = eat_u8(buf)?;
         let data_mimetype = eat_bytes(buf, data_mimetype_len as usize)?;
-        let payload = eat_payload(buf, true)?;
+        let payload = eat_payload(buf, flags.contains(Flags::METADATA))?;
         Ok(SetupFrame {
             flags,
             version,
diff --git a/binate/src/frame/visit.rs b/binate/src/frame/visit.rs
index 0556ba6..81b503d 100644
--- a/binate/src/frame/visit.rs
+++ b/binate/src/frame/visit.rs
@@ -84,11 +84,10 @@ pub(super) fn eat_bytes<B: Buf>(buf: &mut B, len: usize) -> Result<Bytes> {
 
 pub(super) fn eat_payload<B: Buf>(
     buf: &mut B,
-    can_have_data: bool,
+    has_metadata: bool,
 ) -> Result<Payload> {
-    let metadata_len =
-        if can_have_data { eat_u24(buf)?.into_usize() } else { 0 };
-    let metadata = if metadata_len > 0 {
+    let metadata = if has_metadata {
+        let metadata_len = eat_u24(buf)?.into_usize();
         Some(eat_bytes(buf, metadata_len)?)
     } else {
         None
-- 
2.43.0


From e5b28f8202aaaea1766f491710f354acb5b8e587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:28 +0000
Subject: [PATCH 03/19] fix: read a single byte when only one byte is left

Reading an 8-bit length demanded two remaining bytes, so a SETUP frame that
ends with an empty data MIME type was reported as incomplete.
---
 binate/src/frame/visit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binate/src/frame/visit.rs b/binate/src/frame/visit.rs
index 81b503d..ab9abd1 100644
--- a/binate/src/frame/visit.rs
+++ b/binate/src/frame/visit.rs
@@ -41,7 +41,7 @@ pub(super) fn eat_version<B: Buf>(buf: &mut B) -> Result<Version> {
 }
 
 pub(super) fn eat_u8<B: Buf>(buf: &mut B) -> Result<u8> {
-    incomplete_if_less_than!(buf, 2);
+    incomplete_if_less_than!(buf, 1);
 
     Ok(buf.get_u8())
 }
-- 
2.43.0


From d6bf0e54557f7be139a25011706be92eda995d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:33 +0000
Subject: [PATCH 04/19] fix: report extension frames as unrecognized instead of
 panicking

Frame::decode hit unimplemented!() on a six-byte header with frame type 0x3F,
which any peer can send.
---
 binate/src/frame/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/binate/src/frame/mod.rs b/binate/src/frame/mod.rs
index d4ebe35..9e1c9ec 100644
--- a/binate/src/frame/mod.rs
+++ b/binate/src/frame/mod.rs
@@ -171,7 +171,9 @@ impl Frame {
                 Frame::ResumeOk(ResumeOkFrame::decode(buf, stream_id, flags)?)
             }
             FrameType::EXT => {
-                unimplemented!()
+                return Err(DecodeError::UnrecognizedFrameType(
+                    FrameType::EXT.value(),
+                ))
             }
         })
     }
-- 
2.43.0


From c475ae38ca645b62f2afd58792cbd9e230b1ff68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:37 +0000
Subject: [PATCH 05/19] fix: keep all 32 bits of an error code

The code field of an ERROR frame has no reserved bit, and application error
codes go up to 0xFFFFFFFE (MAX_APPLICATION_ERROR_CODE), but codes above
0x7FFFFFFF were refused in debug builds and truncated in release builds.
---
 binate/src/frame/codec/error.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/binate/src/frame/codec/error.rs b/binate/src/frame/codec/error.rs
index 233124f..c0d8f5b 100644
--- a/binate/src/frame/codec/error.rs
+++ b/binate/src/frame/codec/error.rs
@@ -108,16 +108,11 @@ impl ErrorFrame {
 impl ErrorFrame {
     /// Create a new `ErrorFrame`.
     ///
-    /// - `stream_id` and `error_code` MUST be <= [`MAX_U31`].
+    /// - `stream_id` MUST be <= [`MAX_U31`].
     /// - `data` SHOULD be a UTF-8 encoded string.
     pub fn new(stream_id: u32, error_code: u32, data: Option<Bytes>) -> Self {
         debug_assert_max_u31!(stream_id);
-        debug_assert_max_u31!(error_code);
-        ErrorFrame {
-            stream_id: stream_id & MAX_U31,
-            code: error_code & MAX_U31,
-            data,
-        }
+        ErrorFrame { stream_id: stream_id & MAX_U31, code: error_code, data }
     }
 
     /// Returns the stream ID of this frame.
-- 
2.43.0


From d39863ea55a52a74f3fcb34840e3a4555e597e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 06/19] fix: do not count a token length in SETUP frames
 without a token

SetupFrame::len() was two bytes more than the encoded frame whenever there
was no resume token.
---
 binate/src/frame/codec/setup.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/binate/src/frame/codec/setup.rs b/binate/src/frame/codec/setup.rs
index 2163b75..8f487ad 100644
--- a/binate/src/frame/codec/setup.rs
+++ b/binate/src/frame/codec/setup.rs
@@ -165,12 +165,12 @@ impl Encode for SetupFrame {
         // len(version): 4
         // len(keepalive): 4
         // len(lifetime): 4
-        // len(token_length): 2
-        let mut len = 20;
+        let mut len = 18;
 
+        // len(token_length): 2
         // len(resume_token)
         if let Some(resume_token) = &self.resume_token {
-            len += resume_token.len();
+            len += 2 + resume_token.len();
         }
 
         // len(mime_metadata_length): 1
-- 
2.43.0


From 6482d494264486ec21682ca9ca3f6725806ee445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:46 +0000
Subject: [PATCH 07/19] fix: give a SETUP frame with only the Resume flag an
 empty token

The token and its length are on the wire exactly if the Resume flag is set.
A builder with set_resume_flag() but no token produced a frame whose MIME
types were then read as a token.
---
 binate/src/frame/codec/setup.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/binate/src/frame/codec/setup.rs b/binate/src/frame/codec/setup.rs
index 8f487ad..7cbe7d9 100644
--- a/binate/src/frame/codec/setup.rs
+++ b/binate/src/frame/codec/setup.rs
@@ -251,8 +251,12 @@ impl Default for SetupFrameBuilder {
 
 impl SetupFrameBuilder {
     /// Sets the `Resume` flag.
+    ///
+    /// The resume identification token is empty unless it is set by
+    /// [`set_resume_token`](SetupFrameBuilder::set_resume_token).
     pub fn set_resume_flag(mut self) -> Self {
         self.flags |= Flags::RESUME;
+        self.resume_token.get_or_insert_with(Bytes::new);
         self
     }
 
-- 
2.43.0


From 32aafdb3d629097befba0be090681ed44eb906b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:50 +0000
Subject: [PATCH 08/19] fix: refuse MIME types that do not fit their 8-bit
 length

A MIME type of 256 bytes was accepted and its length written as 0, which
corrupts the SETUP frame.
---
 binate/src/frame/codec/setup.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/binate/src/frame/codec/setup.rs b/binate/src/frame/codec/setup.rs
index 7cbe7d9..354d005 100644
--- a/binate/src/frame/codec/setup.rs
+++ b/binate/src/frame/codec/setup.rs
@@ -313,7 +313,7 @@ impl SetupFrameBuilder {
     ///
     /// # Panics
     ///
-    /// This function panics if the length of the given `mimetype` is greater than `256` bytes.
+    /// This function panics if the length of the given `mimetype` is greater than `255` bytes.
     ///
     /// [`Internet media type`]: https://en.wikipedia.org/wiki/Internet_media_type
     /// [`RFC 2045`]: https://datatracker.ietf.org/doc/html/rfc2045
@@ -322,7 +322,7 @@ impl SetupFrameBuilder {
         T: Into<String>,
     {
         let mimetype: String = mimetype.into();
-        assert!(mimetype.len() <= 256);
+        assert!(mimetype.len() <= 255);
         self.metadata_mimetype = Bytes::from(mimetype);
         self
     }
@@ -334,7 +334,7 @@ impl SetupFrameBuilder {
     ///
     /// # Panics
     ///
-    /// This function panics if the length of the given `mimetype` is greater than `256` bytes.
+    /// This function panics if the length of the given `mimetype` is greater than `255` bytes.
     ///
     /// [`Internet media type`]: https://en.wikipedia.org/wiki/Internet_media_type
     /// [`RFC 2045`]: https://datatracker.ietf.org/doc/html/rfc2045
@@ -343,7 +343,7 @@ impl SetupFrameBuilder {
         T: Into<String>,
     {
         let mimetype: String = mimetype.into();
-        assert!(mimetype.len() <= 256);
+        assert!(mimetype.len() <= 255);
         self.data_mimetype = Bytes::from(mimetype);
         self
     }
-- 
2.43.0


From 4a9f95276c17824ef1594954a0f5a7b2c8dc894a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:34 +0000
Subject: [PATCH 09/19] fix: keep the numbers of a LEASE frame within 31 bits

Unlike every other constructor, LeaseFrame::new did not mask out-of-range
numbers in release builds, so they set reserved bits on the wire.
---
 binate/src/frame/codec/lease.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/binate/src/frame/codec/lease.rs b/binate/src/frame/codec/lease.rs
index 13c7dd7..264ef49 100644
--- a/binate/src/frame/codec/lease.rs
+++ b/binate/src/frame/codec/lease.rs
@@ -46,6 +46,8 @@ impl LeaseFrame {
         metadata: Option<Bytes>,
     ) -> Self {
         debug_assert_max_u31!(ttl, number_of_requests);
+        let ttl = ttl & MAX_U31;
+        let number_of_requests = number_of_requests & MAX_U31;
         LeaseFrame { ttl, number_of_requests, metadata }
     }
 
-- 
2.43.0


From 9b1b9773a7da0764d17fdebdea1e7c02493e9ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:38 +0000
Subject: [PATCH 10/19] fix: take the metadata of a LEASE frame from its
 Metadata flag

A LEASE frame with present but empty metadata lost it in decoding, and bytes
after a LEASE without the flag were taken for metadata.
---
 binate/src/frame/codec/lease.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/binate/src/frame/codec/lease.rs b/binate/src/frame/codec/lease.rs
index 264ef49..863d5bd 100644
--- a/binate/src/frame/codec/lease.rs
+++ b/binate/src/frame/codec/lease.rs
@@ -103,7 +103,7 @@ impl Decode for LeaseFrame {
     fn decode<B: Buf>(
         buf: &mut B,
         stream_id: u32,
-        _flags: Flags,
+        flags: Flags,
     ) -> Result<Self::Value> {
         if stream_id != 0 {
             return Err(DecodeError::InvalidStreamId {
@@ -113,9 +113,10 @@ impl Decode for LeaseFrame {
         }
         let ttl = eat_u31(buf)?;
         let number_of_requests = eat_u31(buf)?;
-        let metadata = match buf.remaining() {
-            0 => None,
-            len => Some(eat_bytes(buf, len)?),
+        let metadata = if flags.contains(Flags::METADATA) {
+            Some(eat_bytes(buf, buf.remaining())?)
+        } else {
+            None
         };
         Ok(LeaseFrame { ttl, number_of_requests, metadata })
     }
-- 
2.43.0


From 321ca676c9f12feba2a312cbdca7fa00be028415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:43 +0000
Subject: [PATCH 11/19] fix: count payload chunks exactly

PayloadChunks::len() divided in 32-bit floating point, which miscounts
payloads above 2^24 bytes, and it counted no chunk for a part that is present
but empty although next() yields one. size_hint() did not report the exact
length that ExactSizeIterator promises.
---
 binate/src/payload.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/binate/src/payload.rs b/binate/src/payload.rs
index 39ab4d4..df9055f 100644
--- a/binate/src/payload.rs
+++ b/binate/src/payload.rs
@@ -198,14 +198,13 @@ impl ExactSizeIterator for PayloadChunks {
     /// Returns the number of chunks in this `PayloadChunks`.
     #[inline]
     fn len(&self) -> usize {
-        let metadata_len =
-            self.metadata.as_ref().map(|bytes| bytes.len()).unwrap_or(0);
-        let data_len =
-            self.data.as_ref().map(|bytes| bytes.len()).unwrap_or(0);
-        let len1 = metadata_len as f32 / self.chunk_size as f32;
-        let len2 = data_len as f32 / self.chunk_size as f32;
-
-        cmp::max(len1.ceil() as usize, len2.ceil() as usize)
+        // A part that is present but empty still takes one chunk.
+        let chunks = |part: &Option<Bytes>| match part {
+            Some(bytes) => bytes.len().saturating_sub(1) / self.chunk_size + 1,
+            None => 0,
+        };
+
+        cmp::max(chunks(&self.metadata), chunks(&self.data))
     }
 }
 
@@ -237,6 +236,11 @@ impl Iterator for PayloadChunks {
         }
         Some(Payload::new(meta, data))
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl iter::FusedIterator for PayloadChunks {}
-- 
2.43.0


From f05175f99b68e0432b47101502501dfb2001270b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:47 +0000
Subject: [PATCH 12/19] fix: send a fire-and-forget request with an empty
 payload

With fragmentation on, a request without any bytes was split into no chunks
and silently not sent.
---
 binate/src/connection/socket.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/binate/src/connection/socket.rs b/binate/src/connection/socket.rs
index 06f252c..b98cfd4 100644
--- a/binate/src/connection/socket.rs
+++ b/binate/src/connection/socket.rs
@@ -148,7 +148,8 @@ impl RSocket for RSocketMachine {
     fn fire_and_forget(&self, payload: Payload) -> Result<()> {
         let stream_id = self.stream_id.next_stream_id(&self.receivers);
 
-        if let Some(chunk_size) = self.chunk_payload {
+        let chunk_size = self.chunk_payload.filter(|_| !payload.is_empty());
+        if let Some(chunk_size) = chunk_size {
             let chunks = payload.chunks(chunk_size);
             let chunks_len = chunks.len();
             for (idx, chunked) in chunks.enumerate() {
-- 
2.43.0


From d21f69eebf35ea98c62cc1b91bb014f21b41e7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 13/19] fix: subscribe to the connection status once

The supervisor asked for a new status stream for every status. As each stream
starts with the current status, it spun on it forever.
---
 binate/src/connection/socket.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/binate/src/connection/socket.rs b/binate/src/connection/socket.rs
index b98cfd4..c3a5dad 100644
--- a/binate/src/connection/socket.rs
+++ b/binate/src/connection/socket.rs
@@ -70,9 +70,8 @@ impl RSocketMachine {
         // Listens to the connection status.
         let mut cloned_rsm = rsm.clone();
         runtime::spawn(async move {
-            while let Some(status) =
-                cloned_rsm.connection.connection_status().next().await
-            {
+            let mut statuses = cloned_rsm.connection.connection_status();
+            while let Some(status) = statuses.next().await {
                 match status {
                     ConnectionStatus::Closed => {
                         cloned_rsm.handle_transport_close();
-- 
2.43.0


From 059ac910c230bb73f281b6578593218128c3f9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:56 +0000
Subject: [PATCH 14/19] fix: never hand out stream id 0

When the ids of a server wrap around, the counter passes 0, which is reserved
for the connection itself.
---
 binate/src/connection/stream_id.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/binate/src/connection/stream_id.rs b/binate/src/connection/stream_id.rs
index f0d54a2..4a92131 100644
--- a/binate/src/connection/stream_id.rs
+++ b/binate/src/connection/stream_id.rs
@@ -32,7 +32,8 @@ impl StreamIdProvider {
             sid = (self.0.fetch_add(2, Ordering::Relaxed) & STREAM_ID_MASK)
                 as u32;
 
-            if !store.contains_key(&sid) {
+            // Stream ID 0 is reserved for the connection.
+            if sid != 0 && !store.contains_key(&sid) {
                 break;
             }
         }
-- 
2.43.0


From 57b6885a81de9f1d21a4bc9d541ffe2c6cc7ee91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:00 +0000
Subject: [PATCH 15/19] fix: saturate the request counter instead of wrapping
 around

Granting permits beyond 2^31-1 (two REQUEST_N frames with the maximum count
are enough) made the count negative.
---
 binate/src/connection/counter.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/binate/src/connection/counter.rs b/binate/src/connection/counter.rs
index d85523a..d7200c5 100644
--- a/binate/src/connection/counter.rs
+++ b/binate/src/connection/counter.rs
@@ -22,9 +22,13 @@ impl RequestCounter {
         self.0.load(Ordering::SeqCst) == 0
     }
 
-    /// Adds permits to this counter.
+    /// Adds permits to this counter, up to a count of `i32::MAX`.
     pub fn add(&self, n: u32) {
-        self.0.fetch_add(n as i32, Ordering::SeqCst);
+        let n = n.min(i32::MAX as u32) as i32;
+        let _ =
+            self.0.fetch_update(Ordering::SeqCst, Ordering::SeqCst, |v| {
+                Some(v.saturating_add(n))
+            });
     }
 
     /// Returns the count this counter stores.
-- 
2.43.0


From 86b774f40777c352644922ec1be49e5f094b9c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:04 +0000
Subject: [PATCH 16/19] fix: describe REJECTED errors by their own name

---
 binate/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binate/src/error.rs b/binate/src/error.rs
index 2662325..5b7c1ef 100644
--- a/binate/src/error.rs
+++ b/binate/src/error.rs
@@ -211,7 +211,7 @@ impl Error {
             ConnectionError => "CONNECTION_ERROR (0x00000101)",
             ConnectionClose => "CONNECTION_CLOSE (0x00000102)",
             ApplicationError => "APPLICATION_ERROR (0x00000201)",
-            Rejected => "CONNECTION_ERROR (0x00000202)",
+            Rejected => "REJECTED (0x00000202)",
             Canceled => "CANCELED (0x00000203)",
             Invalid => "INVALID (0x00000204)",
             Decode(_) => "error decoding frame",
-- 
2.43.0


From cc0f24f3a475a85a594617e4073025fddf45c693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 17/19] fix: convert well-known MIME types to their names

The conversion called itself until the stack overflowed for every type but
UNPARSEABLE.
---
 binate/src/mimetype.rs | 55 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 51 insertions(+), 4 deletions(-)

diff --git a/binate/src/mimetype.rs b/binate/src/mimetype.rs
index 18277b3..5526ee4 100644
--- a/binate/src/mimetype.rs
+++ b/binate/src/mimetype.rs
@@ -117,12 +117,59 @@ impl From<&str> for WellKnownMimeType {
     }
 }
 
+#[rustfmt::skip]
 impl From<WellKnownMimeType> for &'static str {
     fn from(t: WellKnownMimeType) -> &'static str {
-        if t == WellKnownMimeType::UNPARSEABLE {
-            ""
-        } else {
-            t.into()
+        use WellKnownMimeType::*;
+        match t {
+            UNPARSEABLE => "",
+            APPLICATION_AVRO => "application/avro",
+            APPLICATION_CBOR => "application/cbor",
+            APPLICATION_GRAPHQL => "application/graphql",
+            APPLICATION_GZIP => "application/gzip",
+            APPLICATION_JAVASCRIPT => "application/javascript",
+            APPLICATION_JSON => "application/json",
+            APPLICATION_OCTET_STREAM => "application/octet-stream",
+            APPLICATION_PDF => "application/pdf",
+            APPLICATION_VND_APACHE_THRIFT_BINARY => "application/vnd.apache.thrift.binary",
+            APPLICATION_VND_GOOGLE_PROTOBUF => "application/vnd.google.protobuf",
+            APPLICATION_XML => "application/xml",
+            APPLICATION_ZIP => "application/zip",
+            AUDIO_AAC => "audio/aac",
+            AUDIO_MP3 => "audio/mp3",
+            AUDIO_MP4 => "audio/mp4",
+            AUDIO_MPEG3 => "audio/mpeg3",
+            AUDIO_MPEG => "audio/mpeg",
+            AUDIO_OGG => "audio/ogg",
+            AUDIO_OPUS => "audio/opus",
+            AUDIO_VORBIS => "audio/vorbis",
+            IMAGE_BMP => "image/bmp",
+            IMAGE_GIF => "image/gif",
+            IMAGE_HEIC_SEQUENCE => "image/heic-sequence",
+            IMAGE_HEIC => "image/heic",
+            IMAGE_HEIF_SEQUENCE => "image/heif-sequence",
+            IMAGE_HEIF => "image/heif",
+            IMAGE_JPEG => "image/jpeg",
+            IMAGE_PNG => "image/png",
+            IMAGE_TIFF => "image/tiff",
+            MULTIPART_MIXED => "multipart/mixed",
+            TEXT_CSS => "text/css",
+            TEXT_CSV => "text/csv",
+            TEXT_HTML => "text/html",
+            TEXT_PLAIN => "text/plain",
+            TEXT_XML => "text/xml",
+            VIDEO_H264 => "video/H264",
+            VIDEO_H265 => "video/H265",
+            VIDEO_VP8 => "video/VP8",
+            APPLICATION_X_HESSIAN => "application/x-hessian",
+            APPLICATION_X_JAVA_OBJECT => "application/x-java-object",
+            APPLICATION_CLOUDEVENTS_JSON => "application/cloudevents+json",
+            MESSAGE_X_RSOCKET_MIME_TYPE_V0 => "message/x.rsocket.mime.type.v0",
+            MESSAGE_X_RSOCKET_ACCEPT_TIME_TYPES_V0 => "message/x.rsocket.accept.time.types.v0",
+            MESSAGE_X_RSOCKET_AUTHENTICATION_V0 => "message/x.rsocket.authentication.v0",
+            MESSAGE_X_RSOCKET_TRACING_ZIPKIN_V0 => "message/x.rsocket.tracing.zipkin.v0",
+            MESSAGE_X_RSOCKET_ROUTING_V0 => "message/x.rsocket.routing.v0",
+            MESSAGE_X_RSOCKET_COMPOSITE_METADATA_V0 => "message/x.rsocket.composite.metadata.v0",
         }
     }
 }
-- 
2.43.0


From a0b55c2bba8b0efa2e3dfab9a22d6941dcc40e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 18/19] fix: use the registered names of the RSocket MIME types

Four names were misspelled, so metadata typed by other RSocket peers was
unparseable here and the other way round.
---
 binate/src/mimetype.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/binate/src/mimetype.rs b/binate/src/mimetype.rs
index 5526ee4..8cf97a1 100644
--- a/binate/src/mimetype.rs
+++ b/binate/src/mimetype.rs
@@ -106,12 +106,12 @@ impl From<&str> for WellKnownMimeType {
             "application/x-hessian" => APPLICATION_X_HESSIAN,
             "application/x-java-object" => APPLICATION_X_JAVA_OBJECT,
             "application/cloudevents+json" => APPLICATION_CLOUDEVENTS_JSON,
-            "message/x.rsocket.mime.type.v0" => MESSAGE_X_RSOCKET_MIME_TYPE_V0,
-            "message/x.rsocket.accept.time.types.v0" => MESSAGE_X_RSOCKET_ACCEPT_TIME_TYPES_V0,
+            "message/x.rsocket.mime-type.v0" => MESSAGE_X_RSOCKET_MIME_TYPE_V0,
+            "message/x.rsocket.accept-mime-types.v0" => MESSAGE_X_RSOCKET_ACCEPT_TIME_TYPES_V0,
             "message/x.rsocket.authentication.v0" => MESSAGE_X_RSOCKET_AUTHENTICATION_V0,
-            "message/x.rsocket.tracing.zipkin.v0" => MESSAGE_X_RSOCKET_TRACING_ZIPKIN_V0,
+            "message/x.rsocket.tracing-zipkin.v0" => MESSAGE_X_RSOCKET_TRACING_ZIPKIN_V0,
             "message/x.rsocket.routing.v0" => MESSAGE_X_RSOCKET_ROUTING_V0,
-            "message/x.rsocket.composite.metadata.v0" => MESSAGE_X_RSOCKET_COMPOSITE_METADATA_V0,
+            "message/x.rsocket.composite-metadata.v0" => MESSAGE_X_RSOCKET_COMPOSITE_METADATA_V0,
             _ => UNPARSEABLE,
         }
     }
@@ -164,12 +164,12 @@ impl From<WellKnownMimeType> for &'static str {
             APPLICATION_X_HESSIAN => "application/x-hessian",
             APPLICATION_X_JAVA_OBJECT => "application/x-java-object",
             APPLICATION_CLOUDEVENTS_JSON => "application/cloudevents+json",
-            MESSAGE_X_RSOCKET_MIME_TYPE_V0 => "message/x.rsocket.mime.type.v0",
-            MESSAGE_X_RSOCKET_ACCEPT_TIME_TYPES_V0 => "message/x.rsocket.accept.time.types.v0",
+            MESSAGE_X_RSOCKET_MIME_TYPE_V0 => "message/x.rsocket.mime-type.v0",
+            MESSAGE_X_RSOCKET_ACCEPT_TIME_TYPES_V0 => "message/x.rsocket.accept-mime-types.v0",
             MESSAGE_X_RSOCKET_AUTHENTICATION_V0 => "message/x.rsocket.authentication.v0",
-            MESSAGE_X_RSOCKET_TRACING_ZIPKIN_V0 => "message/x.rsocket.tracing.zipkin.v0",
+            MESSAGE_X_RSOCKET_TRACING_ZIPKIN_V0 => "message/x.rsocket.tracing-zipkin.v0",
             MESSAGE_X_RSOCKET_ROUTING_V0 => "message/x.rsocket.routing.v0",
-            MESSAGE_X_RSOCKET_COMPOSITE_METADATA_V0 => "message/x.rsocket.composite.metadata.v0",
+            MESSAGE_X_RSOCKET_COMPOSITE_METADATA_V0 => "message/x.rsocket.composite-metadata.v0",
         }
     }
 }
-- 
2.43.0


From 98c3b157bebff5e7f7a1ea2771bdd168c0077fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:41 +0000
Subject: [PATCH 19/19] verification hooks, guarded by cfg(binate_verif)

---
 binate/src/connection/mod.rs       |   3 +
 binate/src/connection/socket.rs    |  31 ++++++++
 binate/src/connection/stream_id.rs |   8 ++
 binate/src/connection/verif.rs     | 113 +++++++++++++++++++++++++++++
 4 files changed, 155 insertions(+)
 create mode 100644 binate/src/connection/verif.rs

diff --git a/binate/src/connection/mod.rs b/binate/src/connection/mod.rs
index d8f323f..45c7715 100644
--- a/binate/src/connection/mod.rs
+++ b/binate/src/connection/mod.rs
@@ -6,6 +6,9 @@ mod counter;
 mod socket;
 mod stream_id;
 
+#[cfg(binate_verif)]
+pub mod verif;
+
 pub use self::conn::{ConnectionStatus, DuplexConnection};
 pub use self::counter::RequestCounter;
 pub use self::stream_id::StreamIdProvider;
diff --git a/binate/src/connection/socket.rs b/binate/src/connection/socket.rs
index c3a5dad..c017c5d 100644
--- a/binate/src/connection/socket.rs
+++ b/binate/src/connection/socket.rs
@@ -173,3 +173,34 @@ impl RSocket for RSocketMachine {
         self.connection.send(frame)
     }
 }
+
+#[cfg(binate_verif)]
+impl RSocketMachine {
+    pub(crate) fn verif_set_fragment_size(&mut self, size: Option<usize>) {
+        self.chunk_payload = size;
+    }
+
+    pub(crate) fn verif_set_stream_id_counter(&mut self, counter: i32) {
+        self.stream_id = Arc::new(StreamIdProvider::verif_new(counter));
+    }
+
+    pub(crate) fn verif_occupy(&self, stream_id: u32) {
+        struct Occupied;
+
+        impl Subject for Occupied {
+            type Item = Frame;
+
+            fn on_next(&mut self, _item: Frame) -> Result<()> {
+                Ok(())
+            }
+
+            fn on_error(&mut self, _err: crate::Error) {}
+
+            fn on_complete(&mut self) -> Result<()> {
+                Ok(())
+            }
+        }
+
+        self.receivers.insert(stream_id, Box::new(Occupied));
+    }
+}
diff --git a/binate/src/connection/stream_id.rs b/binate/src/connection/stream_id.rs
index 4a92131..bbee666 100644
--- a/binate/src/connection/stream_id.rs
+++ b/binate/src/connection/stream_id.rs
@@ -47,6 +47,14 @@ impl StreamIdProvider {
     }
 }
 
+#[cfg(binate_verif)]
+impl StreamIdProvider {
+    /// Create a `StreamIdProvider` whose counter starts at `init`.
+    pub fn verif_new(init: i32) -> StreamIdProvider {
+        StreamIdProvider::_new(init)
+    }
+}
+
 #[cfg(all(test, not(loom)))]
 mod tests {
     use super::*;
diff --git a/binate/src/connection/verif.rs b/binate/src/connection/verif.rs
new file mode 100644
index 0000000..e2b5dbf
--- /dev/null
+++ b/binate/src/connection/verif.rs
@@ -0,0 +1,113 @@
+//! Public wrappers around crate-private types, for the verification harnesses only
+//! (`--cfg binate_verif`).
+use super::buf::BufList;
+use super::socket::{RSocketMachine, Role};
+use super::DuplexConnection;
+use crate::error::{Code, Error, Kind};
+use crate::frame::{DecodeError, Frame};
+use crate::payload::Payload;
+use crate::RSocket;
+
+use bytes::Buf;
+use std::convert::TryInto;
+use std::fmt;
+use std::time::Duration;
+
+/// Wraps the segment list used for frame reassembly.
+pub struct SegmentList<T>(BufList<T>);
+
+impl<T: Buf> SegmentList<T> {
+    /// Creates an empty list.
+    pub fn empty() -> Self {
+        SegmentList(BufList::new())
+    }
+
+    /// Appends a segment.
+    pub fn push(&mut self, segment: T) {
+        self.0.push(segment)
+    }
+
+    /// Reassembles the frames held by the segments into one payload.
+    pub fn into_payload(self) -> Result<Payload, DecodeError> {
+        self.0.try_into()
+    }
+
+    /// Decodes a frame from the list.
+    pub fn decode(&mut self) -> Result<Frame, DecodeError> {
+        Frame::decode(&mut self.0)
+    }
+}
+
+impl<T: Buf + 'static> SegmentList<T> {
+    /// The list itself.
+    pub fn buf(&mut self) -> &mut dyn Buf {
+        &mut self.0
+    }
+}
+
+impl<T> fmt::Debug for SegmentList<T> {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        f.write_str("SegmentList")
+    }
+}
+
+/// Wraps the requester side of a connection.
+#[derive(Clone)]
+pub struct Requester(RSocketMachine);
+
+impl Requester {
+    /// Starts a requester, and its supervision, on a connection.
+    pub async fn start(
+        server: bool,
+        connection: impl DuplexConnection + 'static,
+        keepalive_timeout: Duration,
+    ) -> Requester {
+        let role = if server { Role::Server } else { Role::Client };
+        Requester(
+            RSocketMachine::new(role, connection, keepalive_timeout).await,
+        )
+    }
+
+    /// Sets the size requests are fragmented by.
+    pub fn set_fragment_size(&mut self, size: Option<usize>) {
+        self.0.verif_set_fragment_size(size)
+    }
+
+    /// Makes the stream ID counter start at the given value.
+    pub fn set_stream_id_counter(&mut self, counter: i32) {
+        self.0.verif_set_stream_id_counter(counter)
+    }
+
+    /// Marks a stream ID as in use.
+    pub fn occupy(&self, stream_id: u32) {
+        self.0.verif_occupy(stream_id)
+    }
+
+    /// The interface used by applications.
+    pub fn rsocket(&self) -> &dyn RSocket {
+        &self.0
+    }
+}
+
+impl fmt::Debug for Requester {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        f.write_str("Requester")
+    }
+}
+
+/// Builds the error for a protocol error code.
+pub fn protocol_error(code: Code, cause: Option<String>) -> Error {
+    let kind = match code {
+        Code::InvalidSetup => Kind::InvalidSetup,
+        Code::UnsupportedSetup => Kind::UnsupportedSetup,
+        Code::RejectedSetup => Kind::RejectedSetup,
+        Code::RejectedResume => Kind::RejectedResume,
+        Code::ConnectionError => Kind::ConnectionError,
+        Code::ConnectionClose => Kind::ConnectionClose,
+        Code::ApplicationError => Kind::ApplicationError,
+        Code::Rejected => Kind::Rejected,
+        Code::Canceled => Kind::Canceled,
+        Code::Invalid => Kind::Invalid,
+    };
+    Error::new(kind, cause)
+}
-- 
2.43.0

