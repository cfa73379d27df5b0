From 954f8acefe4f709da80b58cf9c490ee574dc027a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 01/33] fix: do not strip digits and punctuation from the start
 of names and emails

The padding class was meant to be the control characters and space, but
\x32 is the digit 2.
---
 src/object/signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object/signature.rs b/src/object/signature.rs
index 9341563..e745e61 100644
--- a/src/object/signature.rs
+++ b/src/object/signature.rs
@@ -22,7 +22,7 @@ pub struct ParseSignatureError;
 
 impl<'a> Signature<'a> {
     fn regex() -> &'static Regex {
-        const PADDING_CHARS: &str = "[\x00-\x32.,:;<>\"\\\\']*";
+        const PADDING_CHARS: &str = "[\x00-\x20.,:;<>\"\\\\']*";
 
         static REGEX: Lazy<Regex> = Lazy::new(|| {
             Regex::new(&format!(
-- 
2.43.0


From bb0e35fab06bb0884f5afee0fae35982bc37b62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 02/33] fix: match names and emails that are not valid UTF-8

In Unicode mode `.` does not match invalid UTF-8, so part of the name was
dropped or the signature refused.
---
 src/object/signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object/signature.rs b/src/object/signature.rs
index e745e61..d37ebdf 100644
--- a/src/object/signature.rs
+++ b/src/object/signature.rs
@@ -26,7 +26,7 @@ impl<'a> Signature<'a> {
 
         static REGEX: Lazy<Regex> = Lazy::new(|| {
             Regex::new(&format!(
-                r"{pad}(.*){pad} <{pad}(.*){pad}>(?: (\d+)(?: ([+\-]\d+))?)?",
+                r"(?-u){pad}(.*){pad} <{pad}(.*){pad}>(?: (\d+)(?: ([+\-]\d+))?)?",
                 pad = PADDING_CHARS
             ))
             .unwrap()
-- 
2.43.0


From 2eaa4525f4a8b69085e82ca6ecfefc8a3c818c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 03/33] fix: strip trailing padding from names and emails

The captures are greedy, so the padding following them never matched.
---
 src/object/signature.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/object/signature.rs b/src/object/signature.rs
index d37ebdf..88fd015 100644
--- a/src/object/signature.rs
+++ b/src/object/signature.rs
@@ -48,11 +48,11 @@ impl<'a> Signature<'a> {
     }
 
     pub fn name(&self) -> &'a BStr {
-        self.captures.get(1).unwrap().as_bytes().as_bstr()
+        trim_padding(self.captures.get(1).unwrap().as_bytes())
     }
 
     pub fn email(&self) -> &'a BStr {
-        self.captures.get(2).unwrap().as_bytes().as_bstr()
+        trim_padding(self.captures.get(2).unwrap().as_bytes())
     }
 
     pub fn timestamp(&self) -> Option<&'a BStr> {
@@ -64,6 +64,16 @@ impl<'a> Signature<'a> {
     }
 }
 
+/// The greedy captures include any trailing padding.
+fn trim_padding(bytes: &[u8]) -> &BStr {
+    let is_padding = |byte: u8| byte <= b' ' || b".,:;<>\"\\'".contains(&byte);
+    let end = bytes
+        .iter()
+        .rposition(|&byte| !is_padding(byte))
+        .map_or(0, |pos| pos + 1);
+    bytes[..end].as_bstr()
+}
+
 impl<B: AsRef<[u8]>> Parser<B> {
     pub fn parse_signature(
         &mut self,
-- 
2.43.0


From cccb6312ee98ed25b91ae5848cf837eb288b1356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 04/33] fix: refuse objects that are longer than their declared
 size

Excess bytes that were already in the buffer were not noticed.
---
 src/parse/buffer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index a601acd..8c80568 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -160,6 +160,9 @@ impl<R: Read> Buffer<R> {
     /// bytes read is not `size`, returns an error.
     pub fn read_to_end(mut self, size: usize) -> Result<Bytes, Error> {
         self.read_exact(size)?;
+        if self.pos != self.buffer.len() {
+            return Err(Error::InvalidLength);
+        }
 
         // Read::read_to_end will grow the buffer unnecessarily for the
         // final zero-sized read call. Since we know the buffer size
-- 
2.43.0


From 06e4ad466463d44cf79e2171d216b5bbc1b44cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 05/33] fix: do not allocate declared sizes before the data is
 there

An object header declaring a huge size aborted the process.
---
 src/parse/buffer.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index 8c80568..f35d86e 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -10,6 +10,9 @@ use memchr::memchr;
 use crate::object::{Id, ID_LEN};
 use crate::parse::{Error, Parser};
 
+/// The most bytes to allocate for a single read.
+const MAX_FILL_LEN: usize = 64 * 1024;
+
 /// Similar to std::io::BufReader, but with a variable sized buffer
 /// specialized for parsing git objects.
 pub(crate) struct Buffer<R> {
@@ -185,6 +188,9 @@ impl<R: Read> Buffer<R> {
             // TODO ideally we would pass an uninitialized buffer to
             // the reader, but `Read::initializer` isn't stable yet.
             let old_len = self.buffer.len();
+            // `end` may come from an untrusted declared size, so grow the
+            // buffer no faster than there is data to fill it.
+            let end = end.min(old_len.saturating_add(MAX_FILL_LEN));
             self.buffer.resize(end, b'\0');
 
             match self.reader.read(&mut self.buffer[old_len..]) {
-- 
2.43.0


From 8f71f6e56cbb008beb7a55d3755588b507e9ade8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 06/33] fix: use the top bit to tell copy commands from inserts
 in deltas

---
 src/object/database/packed/delta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object/database/packed/delta.rs b/src/object/database/packed/delta.rs
index b46ed1b..266e3ca 100644
--- a/src/object/database/packed/delta.rs
+++ b/src/object/database/packed/delta.rs
@@ -132,7 +132,7 @@ where
             Err(err) => return Err(err.into()),
         };
 
-        if intersects(cmd, 0b1000_000) {
+        if intersects(cmd, 0b1000_0000) {
             let mut offset = 0;
             if intersects(cmd, 0b0000_0001) {
                 offset |= u64::from(self.read_byte()?) << 0;
-- 
2.43.0


From e297574118992e72100123f29b9b5c5f99a78c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 07/33] fix: append delta output instead of copying over an
 empty buffer

---
 src/object/database/packed/delta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object/database/packed/delta.rs b/src/object/database/packed/delta.rs
index 266e3ca..5e03914 100644
--- a/src/object/database/packed/delta.rs
+++ b/src/object/database/packed/delta.rs
@@ -61,7 +61,7 @@ where
             }
         };
 
-        result.copy_from_slice(&src);
+        result.extend_from_slice(src);
         delta.clear_buffer();
     }
 
-- 
2.43.0


From cb6ee1c8663e264d7520118a7e8b624899148857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 08/33] fix: keep buffered delta commands

---
 src/object/database/packed/delta.rs | 1 -
 src/parse/buffer.rs                 | 6 ------
 2 files changed, 7 deletions(-)

diff --git a/src/object/database/packed/delta.rs b/src/object/database/packed/delta.rs
index 5e03914..5389e4c 100644
--- a/src/object/database/packed/delta.rs
+++ b/src/object/database/packed/delta.rs
@@ -62,7 +62,6 @@ where
         };
 
         result.extend_from_slice(src);
-        delta.clear_buffer();
     }
 
     if header.result_len != result.len() {
diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index f35d86e..b09f291 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -51,12 +51,6 @@ impl<R: Read> Buffer<R> {
         mem::take(&mut self.buffer).freeze().slice(range)
     }
 
-    /// Clear the internal buffer
-    pub fn clear_buffer(&mut self) {
-        self.pos = 0;
-        self.buffer.clear();
-    }
-
     /// Create a parser for the given range of bytes.
     pub fn parser<I>(&self, range: I) -> Parser<&[u8]>
     where
-- 
2.43.0


From e2d6db21ae8e83aff5ae08b33d1268a75b796614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 09/33] fix: bound memory by the declared result length of a
 delta

---
 src/object/database/packed/delta.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/object/database/packed/delta.rs b/src/object/database/packed/delta.rs
index 5389e4c..89a6b1c 100644
--- a/src/object/database/packed/delta.rs
+++ b/src/object/database/packed/delta.rs
@@ -8,6 +8,8 @@ use thiserror::Error;
 use crate::object::{ObjectHeader, ObjectKind};
 use crate::parse;
 
+const MAX_INITIAL_CAPACITY: usize = 64 * 1024;
+
 #[derive(Debug, Error)]
 pub(in crate::object::database::packed) enum DeltaError {
     #[error("the delta header is invalid")]
@@ -40,7 +42,8 @@ where
     R: Read,
 {
     let header = delta.read_delta_header()?;
-    let mut result = BytesMut::with_capacity(header.result_len);
+    // The declared length may be bogus, so don't allocate all of it up front.
+    let mut result = BytesMut::with_capacity(header.result_len.min(MAX_INITIAL_CAPACITY));
 
     if header.base_len != base.len() {
         return Err(DeltaError::BaseLengthMismatch);
@@ -61,6 +64,9 @@ where
             }
         };
 
+        if src.len() > header.result_len - result.len() {
+            return Err(DeltaError::ResultLengthMismatch);
+        }
         result.extend_from_slice(src);
     }
 
-- 
2.43.0


From a7a0c72f6f21372a54862bfe52a63b3c796b41ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 10/33] fix: apply deltas starting from the one nearest the
 base object

---
 src/object/database/packed/pack.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index 56c751f..2c57b44 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -127,7 +127,7 @@ impl PackFile {
         offset: u64,
     ) -> Result<ObjectReader, ReadPackFileError> {
         let (chain, mut header, mut base) = self.find_chain(index, offset)?;
-        for entry in chain {
+        for entry in chain.into_iter().rev() {
             let (new_header, new_base) = self.apply_delta(base, entry)?;
             header = new_header;
             base = new_base;
-- 
2.43.0


From 4d245f1f939800313d284c1538ae77e8c7c2fdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 11/33] fix: give objects stored as deltas the kind of their
 base object

---
 src/object/database/packed/pack.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index 2c57b44..fd89e39 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -128,7 +128,7 @@ impl PackFile {
     ) -> Result<ObjectReader, ReadPackFileError> {
         let (chain, mut header, mut base) = self.find_chain(index, offset)?;
         for entry in chain.into_iter().rev() {
-            let (new_header, new_base) = self.apply_delta(base, entry)?;
+            let (new_header, new_base) = self.apply_delta(header.kind, base, entry)?;
             header = new_header;
             base = new_base;
         }
@@ -196,6 +196,7 @@ impl PackFile {
 
     fn apply_delta(
         &self,
+        kind: ObjectKind,
         base: Bytes,
         delta: ChainEntry,
     ) -> Result<(ObjectHeader, Bytes), ReadPackFileError> {
@@ -203,7 +204,7 @@ impl PackFile {
 
         buffer.seek(SeekFrom::Start(delta.offset))?;
 
-        let result = apply_delta(delta.header.kind, &base, &mut buffer.decompress_exact(delta.header.len))?;
+        let result = apply_delta(kind, &base, &mut buffer.decompress_exact(delta.header.len))?;
 
         Ok(self
             .cache
-- 
2.43.0


From 34b24f5afeb1f5a9779afdd8245196e296506bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 12/33] fix: decompress objects and deltas in pack files by
 their inflated length

---
 src/object/database/packed/pack.rs | 10 +++++++---
 src/object/database/reader.rs      | 26 +++++---------------------
 src/parse/buffer.rs                | 26 ++++++++------------------
 3 files changed, 20 insertions(+), 42 deletions(-)

diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index fd89e39..ac6f2ad 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -174,8 +174,7 @@ impl PackFile {
                     offset
                 }
                 _ => {
-                    let base = buffer.read_exact(header.len)?;
-                    let base = buffer.take_buffer(base);
+                    let base = buffer.decompress_exact(header.len)?;
                     cache_entry.insert((header, base.clone()));
                     return Ok((chain, header, base));
                 }
@@ -204,7 +203,12 @@ impl PackFile {
 
         buffer.seek(SeekFrom::Start(delta.offset))?;
 
-        let result = apply_delta(kind, &base, &mut buffer.decompress_exact(delta.header.len))?;
+        let delta_bytes = buffer.decompress_exact(delta.header.len)?;
+        let result = apply_delta(
+            kind,
+            &base,
+            &mut parse::Buffer::new(io::Cursor::new(delta_bytes)),
+        )?;
 
         Ok(self
             .cache
diff --git a/src/object/database/reader.rs b/src/object/database/reader.rs
index 17db42e..c78506c 100644
--- a/src/object/database/reader.rs
+++ b/src/object/database/reader.rs
@@ -1,4 +1,4 @@
-use std::io::{self, BufRead, BufReader, Read};
+use std::io::{self, BufReader, Read};
 
 use bytes::buf::ext::BufExt;
 use bytes::Bytes;
@@ -10,11 +10,11 @@ use crate::parse;
 
 pub struct ObjectReader {
     header: Option<ObjectHeader>,
-    reader: ZlibDecoder<ReaderKind>,
+    reader: ReaderKind,
 }
 
 enum ReaderKind {
-    File(BufReader<fs_err::File>),
+    File(ZlibDecoder<BufReader<fs_err::File>>),
     Bytes(bytes::buf::ext::Reader<Bytes>),
 }
 
@@ -25,7 +25,7 @@ impl ObjectReader {
     ) -> Self {
         ObjectReader {
             header: header.into(),
-            reader: ZlibDecoder::new(ReaderKind::File(BufReader::new(file))),
+            reader: ReaderKind::File(ZlibDecoder::new(BufReader::new(file))),
         }
     }
 
@@ -35,7 +35,7 @@ impl ObjectReader {
     ) -> Self {
         ObjectReader {
             header: header.into(),
-            reader: ZlibDecoder::new(ReaderKind::Bytes(bytes.reader())),
+            reader: ReaderKind::Bytes(bytes.reader()),
         }
     }
 
@@ -63,19 +63,3 @@ impl Read for ReaderKind {
         }
     }
 }
-
-impl BufRead for ReaderKind {
-    fn fill_buf(&mut self) -> io::Result<&[u8]> {
-        match self {
-            ReaderKind::File(file) => file.fill_buf(),
-            ReaderKind::Bytes(bytes) => bytes.fill_buf(),
-        }
-    }
-
-    fn consume(&mut self, amt: usize) {
-        match self {
-            ReaderKind::File(file) => file.consume(amt),
-            ReaderKind::Bytes(bytes) => bytes.consume(amt),
-        }
-    }
-}
diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index b09f291..c7ad58b 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -1,5 +1,4 @@
 use std::io::{self, Read, Seek, SeekFrom};
-use std::mem;
 use std::ops::{Index, Range};
 use std::slice::SliceIndex;
 
@@ -43,14 +42,6 @@ impl<R: Read> Buffer<R> {
         self.pos
     }
 
-    /// Empty the internal buffer and return it.
-    ///
-    /// The position of the reader is unspecified after this operation.
-    pub fn take_buffer(&mut self, range: Range<usize>) -> Bytes {
-        self.pos = 0;
-        mem::take(&mut self.buffer).freeze().slice(range)
-    }
-
     /// Create a parser for the given range of bytes.
     pub fn parser<I>(&self, range: I) -> Parser<&[u8]>
     where
@@ -59,15 +50,14 @@ impl<R: Read> Buffer<R> {
         Parser::new(&self[range])
     }
 
-    /// Return a buffer that decompresses exactly `compressed_size` bytes from this buffer.
-    pub fn decompress_exact<'a>(
-        &'a mut self,
-        compressed_size: usize,
-    ) -> Buffer<ZlibDecoder<impl Read + 'a>> {
-        debug_assert_eq!(self.pos, self.buffer.len()); // Ensure there is no buffered data
-
-        let reader = ZlibDecoder::new(self.reader.by_ref().take(compressed_size as u64));
-        Buffer::new(reader)
+    /// Decompress the zlib stream at the current position. If the total number of
+    /// decompressed bytes is not `size`, returns an error.
+    ///
+    /// The position of the reader is unspecified after this operation.
+    pub fn decompress_exact(&mut self, size: usize) -> Result<Bytes, Error> {
+        let buffered = &self.buffer[self.pos..];
+        let reader = ZlibDecoder::new(buffered.chain(self.reader.by_ref()));
+        Buffer::new(reader).read_to_end(size)
     }
 
     /// Read an exact number of bytes and create a parser.
-- 
2.43.0


From 29d9c54e326b1b1af18b3c55635dbb70728e08e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 13/33] fix: decode multi-byte delta offsets

---
 src/object/database/packed/pack.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index ac6f2ad..704cd80 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -283,11 +283,16 @@ impl<R: Read> parse::Buffer<R> {
             .ok_or(ReadPackFileError::Other("invalid delta offset"))?;
         let parser = &mut self.parser(range);
 
+        let mut first = true;
         let mut offset: u64 = 0;
         while parser.remaining() != 0 {
             let byte = parser.parse_byte()?;
-            offset <<= 7;
-            offset += u64::from(byte & 0b0111_1111);
+            if !first {
+                offset = offset.saturating_add(1);
+            }
+            first = false;
+            offset = offset.saturating_mul(128);
+            offset = offset.saturating_add(u64::from(byte & 0b0111_1111));
         }
 
         Ok(offset)
-- 
2.43.0


From a62d81488e5873a769064a38e5087010d84d72fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 14/33] fix: detect delta loops that span several objects

---
 src/object/database/packed/pack.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index 704cd80..58aca17 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -186,7 +186,8 @@ impl PackFile {
                 header,
             });
 
-            if base_offset == offset {
+            // A chain can't be longer than the number of objects unless it has a loop.
+            if base_offset == offset || chain.len() >= self.count as usize {
                 return Err(ReadPackFileError::Other("loop in deltas"));
             }
             offset = base_offset;
-- 
2.43.0


From e10038429fb7d3035d108bf6d3e22b81a571310a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 15/33] fix: reject pack indices with a partial large offset

---
 src/object/database/packed/index.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/object/database/packed/index.rs b/src/object/database/packed/index.rs
index a07d207..cb6c64b 100644
--- a/src/object/database/packed/index.rs
+++ b/src/object/database/packed/index.rs
@@ -129,7 +129,10 @@ impl IndexFile {
                 .ok_or(ReadIndexFileError::Other("invalid index count"))?,
         };
 
-        if parser.remaining() < min_size || parser.remaining() > max_size {
+        if parser.remaining() < min_size
+            || parser.remaining() > max_size
+            || (parser.remaining() - min_size) % size_of::<u64>() != 0
+        {
             return Err(ReadIndexFileError::Other(
                 "index length is an invalid length",
             ));
-- 
2.43.0


From ea39f7c109f532cf10d0159b7ad33216ec021649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 16/33] fix: report cyclic symbolic references instead of
 overflowing the stack

---
 src/reference.rs          |  2 ++
 src/reference/symbolic.rs | 24 ++++++++++++++++++++----
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/reference.rs b/src/reference.rs
index 7f6b542..a4236b0 100644
--- a/src/reference.rs
+++ b/src/reference.rs
@@ -36,6 +36,8 @@ pub enum Error {
     ReferenceNameInvalidUtf16,
     #[error("reference was given as invalid Utf8")]
     ReferenceNameInvalidUtf8,
+    #[error("too many levels of symbolic references")]
+    TooManySymbolicReferences,
     #[error("failed to dereference to an object")]
     DereferencingFailed(
         #[source]
diff --git a/src/reference/symbolic.rs b/src/reference/symbolic.rs
index 973f37d..dd0383e 100644
--- a/src/reference/symbolic.rs
+++ b/src/reference/symbolic.rs
@@ -2,9 +2,12 @@ use bstr::{BStr, ByteSlice};
 use std::fmt;
 
 use crate::object::Object;
-use crate::reference::{Direct, Error, ParseError};
+use crate::reference::{Direct, Error, ParseError, ReferenceTarget};
 use crate::repository::Repository;
 
+/// The most symbolic references to follow from one reference.
+const MAX_SYMBOLIC_DEPTH: usize = 10;
+
 #[derive(PartialEq)]
 pub struct Symbolic {
     direct_peel: Option<Direct>,
@@ -31,10 +34,23 @@ impl Symbolic {
     }
 
     pub fn peel(&self, repo: &Repository) -> Result<Object, Error> {
-        match &self.direct_peel {
-            Some(direct) => direct.object(repo),
-            None => repo.reference_database().reference(&self.data)?.peel(repo),
+        if let Some(direct) = &self.direct_peel {
+            return direct.object(repo);
+        }
+
+        // References may form a cycle, so only follow a limited number of them.
+        let mut reference = repo.reference_database().reference(&self.data)?;
+        for _ in 0..MAX_SYMBOLIC_DEPTH {
+            reference = match reference.target() {
+                ReferenceTarget::Direct(direct) => return direct.object(repo),
+                ReferenceTarget::Symbolic(symbolic) => match &symbolic.direct_peel {
+                    Some(direct) => return direct.object(repo),
+                    None => repo.reference_database().reference(&symbolic.data)?,
+                },
+            };
         }
+
+        Err(Error::TooManySymbolicReferences)
     }
 }
 
-- 
2.43.0


From 672ac1bafdf3b62b113b0bfc103e2c81d54cc7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 17/33] fix: list no references when their directory does not
 exist

---
 src/reference/database.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/reference/database.rs b/src/reference/database.rs
index 8de82dd..80f8c83 100644
--- a/src/reference/database.rs
+++ b/src/reference/database.rs
@@ -108,6 +108,7 @@ impl ReferenceDatabase {
                     Err(error) => vec![Err(Error::Io(error))],
                 })
                 .collect(),
+            Err(error) if error.kind() == io::ErrorKind::NotFound => Vec::new(),
             Err(error) => vec![Err(Error::Io(error))],
         }
     }
-- 
2.43.0


From 86fed8a424ca8f28a08dd10b1e1a75490f2b9bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 18/33] fix: do not list lock files as references

---
 src/reference/database.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reference/database.rs b/src/reference/database.rs
index 80f8c83..c80ec66 100644
--- a/src/reference/database.rs
+++ b/src/reference/database.rs
@@ -15,6 +15,7 @@ const HEADS: &[u8] = b"heads";
 const TAGS: &[u8] = b"tags";
 const REMOTES: &[u8] = b"remotes";
 const HEAD: &[u8] = b"HEAD";
+const LOCK_EXTENSION: &str = "lock";
 
 #[derive(Debug)]
 pub struct ReferenceDatabase {
@@ -104,6 +105,7 @@ impl ReferenceDatabase {
                 .map(|f| f.unwrap())
                 .flat_map(|f| match f.file_type().map(|ft| ft.is_dir()) {
                     Ok(true) => self.get_file_paths_from_dir(&f.path()),
+                    Ok(false) if f.path().extension() == Some(LOCK_EXTENSION.as_ref()) => Vec::new(),
                     Ok(false) => vec![f.path()].into_iter().map(Ok).collect(),
                     Err(error) => vec![Err(Error::Io(error))],
                 })
-- 
2.43.0


From fbdbb99a7040f4654f7a9930c00365a16e0cf1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:01 +0000
Subject: [PATCH 19/33] fix: do not look up references outside the repository

---
 src/reference/database.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/reference/database.rs b/src/reference/database.rs
index c80ec66..94f9f41 100644
--- a/src/reference/database.rs
+++ b/src/reference/database.rs
@@ -1,7 +1,7 @@
 use std::fs::{self};
 use std::io;
 use std::iter::FromIterator;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 
 #[cfg(unix)]
 use std::ffi::OsStr;
@@ -74,7 +74,16 @@ impl ReferenceDatabase {
     }
 
     pub fn read_reference_file(&self, name: &[u8]) -> Result<impl io::Read, Error> {
-        match fs_err::File::open(self.path.join(ReferenceDatabase::bytes_to_path(name)?)) {
+        let name = ReferenceDatabase::bytes_to_path(name)?;
+        // Don't let a name lead outside the repository.
+        if !name
+            .components()
+            .all(|component| matches!(component, Component::Normal(_)))
+        {
+            return Err(Error::ReferenceNotFound);
+        }
+
+        match fs_err::File::open(self.path.join(name)) {
             Ok(file) => Ok(file),
             Err(err) if err.kind() == io::ErrorKind::NotFound => Err(Error::ReferenceNotFound),
             Err(err) => Err(err.into()),
-- 
2.43.0


From 7a1a0a0cba8545e7e4b9534e6136bef7c0c6e65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:01 +0000
Subject: [PATCH 20/33] fix: report a path that is a file as not being a
 repository

---
 src/repository.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/repository.rs b/src/repository.rs
index 5495ef1..fd9f239 100644
--- a/src/repository.rs
+++ b/src/repository.rs
@@ -40,7 +40,10 @@ impl Repository {
         match fs_err::metadata(&dotgit) {
             Ok(metadata) if metadata.is_dir() => (),
             Ok(_) => return Err(OpenError::NotFound(path)),
-            Err(err) if err.kind() == io::ErrorKind::NotFound => {
+            Err(err)
+                if err.kind() == io::ErrorKind::NotFound
+                    || err.kind() == io::ErrorKind::NotADirectory =>
+            {
                 return Err(OpenError::NotFound(path))
             }
             Err(err) => return Err(OpenError::from(err)),
-- 
2.43.0


From 46156324089810c6eb22c37d9f77e886a26d8777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 21/33] fix: report a reference name below another reference as
 not found

---
 src/reference/database.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/reference/database.rs b/src/reference/database.rs
index 94f9f41..622fcd4 100644
--- a/src/reference/database.rs
+++ b/src/reference/database.rs
@@ -85,7 +85,12 @@ impl ReferenceDatabase {
 
         match fs_err::File::open(self.path.join(name)) {
             Ok(file) => Ok(file),
-            Err(err) if err.kind() == io::ErrorKind::NotFound => Err(Error::ReferenceNotFound),
+            Err(err)
+                if err.kind() == io::ErrorKind::NotFound
+                    || err.kind() == io::ErrorKind::NotADirectory =>
+            {
+                Err(Error::ReferenceNotFound)
+            }
             Err(err) => Err(err.into()),
         }
     }
-- 
2.43.0


From ed52e4fda10e24d864a5e00d2f099dfe57c9cbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 22/33] fix: read loose objects from repositories without a
 pack folder

---
 src/object/database/packed.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/object/database/packed.rs b/src/object/database/packed.rs
index 8a77c04..7f27e7c 100644
--- a/src/object/database/packed.rs
+++ b/src/object/database/packed.rs
@@ -134,7 +134,17 @@ impl PackedObjectDatabase {
             _ => (),
         }
 
-        for entry in fs_err::read_dir(&self.path)? {
+        let entries = match fs_err::read_dir(&self.path) {
+            Ok(entries) => entries,
+            // A repository without packs may not have the folder at all.
+            Err(err) if err.kind() == io::ErrorKind::NotFound => {
+                *last_refresh_guard = Some(Instant::now());
+                return Ok(true);
+            }
+            Err(err) => return Err(err.into()),
+        };
+
+        for entry in entries {
             let path = entry?.path();
             if path.extension() == Some("idx".as_ref()) {
                 self.packs
-- 
2.43.0


From 083759f0ecd1311231bc9e72070ab7d7e42c1746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 23/33] fix: write objects to a temporary file and rename it
 into place

---
 src/object/database/loose.rs | 61 +++++++++++++++++++++++++++++-------
 1 file changed, 50 insertions(+), 11 deletions(-)

diff --git a/src/object/database/loose.rs b/src/object/database/loose.rs
index 1532126..61acfe7 100644
--- a/src/object/database/loose.rs
+++ b/src/object/database/loose.rs
@@ -1,6 +1,8 @@
 use std::fs::OpenOptions;
 use std::io::{self, Write as _};
 use std::path::{Path, PathBuf};
+use std::process;
+use std::sync::atomic::{AtomicUsize, Ordering};
 
 use filetime::{set_file_mtime, FileTime};
 use flate2::write::ZlibEncoder;
@@ -11,6 +13,7 @@ use crate::object::database::ObjectReader;
 use crate::object::Id;
 
 const OBJECTS_FOLDER: &str = "objects";
+const TEMP_FILE_PREFIX: &str = "tmp_obj_";
 
 #[derive(Debug)]
 pub struct LooseObjectDatabase {
@@ -79,22 +82,58 @@ impl LooseObjectDatabase {
         }
 
         path.push(file);
-        let file = match OpenOptions::new().create_new(true).write(true).open(&path) {
-            Ok(file) => fs_err::File::from_parts(file, path),
-            Err(err) if err.kind() == io::ErrorKind::AlreadyExists => {
-                let _ = set_file_mtime(path, FileTime::now());
-                return Ok(id);
-            }
-            Err(err) => return Err(err.into()),
-        };
+        if set_file_mtime(&path, FileTime::now()).is_ok() || path.exists() {
+            return Ok(id);
+        }
+
+        // Write to a temporary file first, so that the object only appears once it is complete.
+        let (file, temp_path) = create_temp_file(&path)?;
+        let result =
+            write_compressed(file, bytes).and_then(|()| fs_err::rename(&temp_path, &path));
+        if let Err(err) = result {
+            let _ = fs_err::remove_file(&temp_path);
+            return Err(err.into());
+        }
 
-        let mut encoder = ZlibEncoder::new(file, Compression::best());
-        encoder.write_all(bytes)?;
-        encoder.finish()?;
         Ok(id)
     }
 }
 
+fn create_temp_file(path: &Path) -> io::Result<(fs_err::File, PathBuf)> {
+    static COUNTER: AtomicUsize = AtomicUsize::new(0);
+
+    loop {
+        let name = format!(
+            "{}{}_{}",
+            TEMP_FILE_PREFIX,
+            process::id(),
+            COUNTER.fetch_add(1, Ordering::Relaxed)
+        );
+        let temp_path = path.with_file_name(name);
+        match OpenOptions::new()
+            .create_new(true)
+            .write(true)
+            .open(&temp_path)
+        {
+            Ok(file) => {
+                return Ok((
+                    fs_err::File::from_parts(file, temp_path.clone()),
+                    temp_path,
+                ))
+            }
+            Err(err) if err.kind() == io::ErrorKind::AlreadyExists => continue,
+            Err(err) => return Err(err),
+        }
+    }
+}
+
+fn write_compressed(file: fs_err::File, bytes: &[u8]) -> io::Result<()> {
+    let mut encoder = ZlibEncoder::new(file, Compression::best());
+    encoder.write_all(bytes)?;
+    encoder.finish()?;
+    Ok(())
+}
+
 fn object_path_parts(hex: &str) -> (&str, &str) {
     hex.split_at(2)
 }
-- 
2.43.0


From d745eeb5dd241f4ac51e2cbf60b59fc33ef8135e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:57 +0000
Subject: [PATCH 24/33] fix: do not let a damaged pack hide objects in other
 packs and loose files

---
 src/object/database.rs        |  4 +-
 src/object/database/packed.rs | 70 +++++++++++++++++++++++++----------
 2 files changed, 53 insertions(+), 21 deletions(-)

diff --git a/src/object/database.rs b/src/object/database.rs
index d7ce623..6e270a7 100644
--- a/src/object/database.rs
+++ b/src/object/database.rs
@@ -60,8 +60,8 @@ impl ObjectDatabase {
     pub fn read_object(&self, id: Id) -> Result<ObjectReader, ReadObjectError> {
         match self.packed.read_object(&ShortId::from(id)) {
             Ok(reader) => return Ok(reader),
-            Err(ReadPackedError::NotFound) => (),
-            Err(err) => return Err(ReadObjectError::new(id, ReadError::from(err))),
+            // if the pack is invalid, there may still be a loose object
+            Err(_) => (),
         };
 
         match self.loose.read_object(&id) {
diff --git a/src/object/database/packed.rs b/src/object/database/packed.rs
index 7f27e7c..67c79c6 100644
--- a/src/object/database/packed.rs
+++ b/src/object/database/packed.rs
@@ -8,6 +8,7 @@ use std::sync::{Arc, Mutex};
 use std::time::{Duration, Instant};
 
 use dashmap::DashMap;
+use smallvec::SmallVec;
 
 use self::index::{FindIndexOffsetError, IndexFile, ReadIndexFileError};
 use self::pack::{PackFile, ReadPackFileError};
@@ -82,15 +83,25 @@ impl PackedObjectDatabase {
         &self,
         short_id: &ShortId,
     ) -> Result<ObjectReader, ReadPackedError> {
-        match self.try_read_object(short_id) {
-            Err(ReadPackedError::NotFound) if self.refresh()? => self.try_read_object(short_id),
-            result => result,
+        let err = match self.try_read_object(short_id) {
+            Ok(reader) => return Ok(reader),
+            Err(err) => err,
+        };
+
+        match self.refresh() {
+            Ok(true) => self.try_read_object(short_id),
+            Ok(false) => Err(err),
+            Err(refresh_err) => match self.try_read_object(short_id) {
+                Err(ReadPackedError::NotFound) => Err(refresh_err),
+                result => result,
+            },
         }
     }
 
     fn try_read_object(&self, short_id: &ShortId) -> Result<ObjectReader, ReadPackedError> {
-        let mut result = None;
+        let mut candidates: SmallVec<[(Arc<Entry>, u64); 1]> = SmallVec::new();
         let mut found_id = None;
+        let mut first_err = None;
         for entry in self.packs.iter() {
             match entry.value().index.find_offset(short_id) {
                 Err(FindIndexOffsetError::Ambiguous) => return Err(ReadPackedError::Ambiguous),
@@ -99,28 +110,32 @@ impl PackedObjectDatabase {
                 }
                 Ok((offset, id)) => {
                     found_id = Some(id);
-                    result = Some((entry.value().clone(), offset))
+                    candidates.push((entry.value().clone(), offset))
                 }
                 Err(FindIndexOffsetError::NotFound) => continue,
+                // The object may still be in another pack
                 Err(FindIndexOffsetError::ReadIndexFile(err)) => {
-                    return Err(ReadPackedError::ReadEntry(ReadEntryError {
+                    first_err.get_or_insert(ReadPackedError::ReadEntry(ReadEntryError {
                         name: entry.name.clone(),
                         kind: ReadEntryErrorKind::ReadIndexFile(err),
-                    }))
+                    }));
                 }
             }
         }
 
-        match result {
-            Some((entry, offset)) => match entry.pack.read_object(&entry.index, offset) {
-                Ok(reader) => Ok(reader),
-                Err(err) => Err(ReadPackedError::ReadEntry(ReadEntryError {
-                    name: entry.name.clone(),
-                    kind: ReadEntryErrorKind::ReadPackFile(err),
-                })),
-            },
-            None => Err(ReadPackedError::NotFound),
+        for (entry, offset) in candidates {
+            match entry.pack.read_object(&entry.index, offset) {
+                Ok(reader) => return Ok(reader),
+                Err(err) => {
+                    first_err.get_or_insert(ReadPackedError::ReadEntry(ReadEntryError {
+                        name: entry.name.clone(),
+                        kind: ReadEntryErrorKind::ReadPackFile(err),
+                    }));
+                }
+            }
         }
+
+        Err(first_err.unwrap_or(ReadPackedError::NotFound))
     }
 
     fn refresh(&self) -> Result<bool, ReadPackedError> {
@@ -144,15 +159,32 @@ impl PackedObjectDatabase {
             Err(err) => return Err(err.into()),
         };
 
+        // Load as many packs as possible, even if some of them are invalid.
+        let mut first_err = None;
         for entry in entries {
-            let path = entry?.path();
+            let path = match entry {
+                Ok(entry) => entry.path(),
+                Err(err) => {
+                    first_err.get_or_insert(ReadPackedError::from(err));
+                    continue;
+                }
+            };
             if path.extension() == Some("idx".as_ref()) {
-                self.packs
+                let result = self
+                    .packs
                     .entry(path.clone())
-                    .or_try_insert_with(move || Entry::open(path).map(Arc::new))?;
+                    .or_try_insert_with(move || Entry::open(path).map(Arc::new));
+                if let Err(err) = result {
+                    first_err.get_or_insert(ReadPackedError::from(err));
+                }
             }
         }
 
+        // Try again next time if anything could not be loaded.
+        if let Some(err) = first_err {
+            return Err(err);
+        }
+
         *last_refresh_guard = Some(Instant::now());
         Ok(true)
     }
-- 
2.43.0


From a34f307aeaccc088c1533d7e9b8e20758a5ddd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 25/33] fix: refuse object sizes and file modes with a sign

---
 src/object/parse.rs | 4 ++++
 src/object/tree.rs  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/object/parse.rs b/src/object/parse.rs
index baf512f..d52c813 100644
--- a/src/object/parse.rs
+++ b/src/object/parse.rs
@@ -132,6 +132,10 @@ impl<B: AsRef<[u8]>> Parser<B> {
         let len = self
             .consume_until(b'\0')
             .ok_or(ParseHeaderError::Other("failed to parse object length"))?;
+        // `usize::from_str` would also accept a sign
+        if !self[len.clone()].iter().all(u8::is_ascii_digit) {
+            return Err(ParseHeaderError::Other("failed to parse object length"));
+        }
         let len = str::from_utf8(&self[len])
             .map_err(|_| ParseHeaderError::Other("failed to parse object length"))?;
         let len = usize::from_str(&len).map_err(|_| ParseHeaderError::LengthTooBig)?;
diff --git a/src/object/tree.rs b/src/object/tree.rs
index 2031e25..9516fec 100644
--- a/src/object/tree.rs
+++ b/src/object/tree.rs
@@ -39,6 +39,10 @@ impl Tree {
             let mode = parser
                 .consume_until(b' ')
                 .ok_or(ParseTreeError("invalid mode"))?;
+            // `u16::from_str_radix` would also accept a sign
+            if parser[mode.clone()].starts_with(b"+") {
+                return Err(ParseTreeError("invalid mode"));
+            }
             let mode = str::from_utf8(&parser[mode]).map_err(|_| ParseTreeError("invalid mode"))?;
             let mode = u16::from_str_radix(mode, 8).map_err(|_| ParseTreeError("invalid mode"))?;
 
-- 
2.43.0


From 17b10f1e06da1c16a5bc8c1daf343a5786c9e804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 26/33] fix: refuse sizes in packs and deltas that do not fit
 instead of truncating them

---
 src/object/database/packed/delta.rs | 4 +++-
 src/object/database/packed/pack.rs  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/object/database/packed/delta.rs b/src/object/database/packed/delta.rs
index 89a6b1c..1632f66 100644
--- a/src/object/database/packed/delta.rs
+++ b/src/object/database/packed/delta.rs
@@ -121,8 +121,10 @@ where
         let mut shift = 0;
         while parser.remaining() != 0 {
             let byte = parser.parse_byte()?;
-            len |= usize::from(byte & 0b0111_1111)
+            let bits = usize::from(byte & 0b0111_1111);
+            len |= bits
                 .checked_shl(shift)
+                .filter(|shifted| shifted >> shift == bits)
                 .ok_or(DeltaError::InvalidHeader)?;
             shift += 7;
         }
diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index 58aca17..f4ad43d 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -264,8 +264,10 @@ impl<R: Read> parse::Buffer<R> {
         let mut shift = 4;
         while parser.remaining() != 0 {
             byte = parser.parse_byte()?;
-            len |= usize::from(byte & 0b0111_1111)
+            let bits = usize::from(byte & 0b0111_1111);
+            len |= bits
                 .checked_shl(shift)
+                .filter(|shifted| shifted >> shift == bits)
                 .ok_or(ReadPackFileError::Other("invalid object size"))?;
             shift += 7;
         }
-- 
2.43.0


From 42fc4becf178ea7cc90d9ea14a6cce577d8f181f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:32 +0000
Subject: [PATCH 27/33] fix: accept references with spaces at the end of their
 line

A space after the id or name was taken for the separator between a peeled id
and a name, so that the reference was refused. Trim the line before splitting
it, and trim only ASCII white space: a name may end in other characters that
Unicode classes as white space.
---
 src/reference/parser.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/reference/parser.rs b/src/reference/parser.rs
index 890551e..4a8909a 100644
--- a/src/reference/parser.rs
+++ b/src/reference/parser.rs
@@ -69,7 +69,8 @@ impl<R: Read> Parser<R> {
             .read_until_valid_reference_line()?
             .ok_or_else(|| ParseError::Empty)?;
 
-        let mut line = &self.buffer[range];
+        // Only spaces within the line separate its parts.
+        let mut line = trim_end(&self.buffer[range]);
 
         if line.starts_with(SYMBOLIC_PREFIX) {
             line = &line[SYMBOLIC_PREFIX.len()..];
@@ -77,7 +78,7 @@ impl<R: Read> Parser<R> {
 
         let peel = match memchr(b' ', line) {
             Some(ch_pos) => {
-                let p = line[..ch_pos].trim_end();
+                let p = trim_end(&line[..ch_pos]);
                 line = &line[(ch_pos + 1)..];
                 Some(p)
             }
@@ -85,8 +86,8 @@ impl<R: Read> Parser<R> {
         };
 
         let target = match memchr(b'/', line) {
-            Some(_) => ReferenceTarget::Symbolic(Symbolic::from_bytes(&line.trim_end(), peel)?),
-            None => ReferenceTarget::Direct(Direct::from_bytes(&line.trim_end())?),
+            Some(_) => ReferenceTarget::Symbolic(Symbolic::from_bytes(line, peel)?),
+            None => ReferenceTarget::Direct(Direct::from_bytes(line)?),
         };
 
         Ok(target)
@@ -124,6 +125,11 @@ impl<R: Read> Parser<R> {
     }
 }
 
+/// Strips trailing ASCII white space. Other white space may be part of a name.
+fn trim_end(line: &[u8]) -> &[u8] {
+    line.trim_end_with(|ch| ch.is_ascii_whitespace())
+}
+
 #[cfg(test)]
 mod tests {
     use super::{ParseError, Parser};
-- 
2.43.0


From 3807fea89bb886e6f677df6f7eb5c938840e40f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:32 +0000
Subject: [PATCH 28/33] fix: decode symbolic references to names without a
 slash

'ref: HEAD' was refused, and 'ref: ' with a name of 40 hex digits was decoded
as a direct reference.
---
 src/reference/parser.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/reference/parser.rs b/src/reference/parser.rs
index 4a8909a..6569e46 100644
--- a/src/reference/parser.rs
+++ b/src/reference/parser.rs
@@ -72,7 +72,8 @@ impl<R: Read> Parser<R> {
         // Only spaces within the line separate its parts.
         let mut line = trim_end(&self.buffer[range]);
 
-        if line.starts_with(SYMBOLIC_PREFIX) {
+        let is_symbolic = line.starts_with(SYMBOLIC_PREFIX);
+        if is_symbolic {
             line = &line[SYMBOLIC_PREFIX.len()..];
         }
 
@@ -85,9 +86,10 @@ impl<R: Read> Parser<R> {
             None => None,
         };
 
-        let target = match memchr(b'/', line) {
-            Some(_) => ReferenceTarget::Symbolic(Symbolic::from_bytes(line, peel)?),
-            None => ReferenceTarget::Direct(Direct::from_bytes(line)?),
+        let target = if is_symbolic || memchr(b'/', line).is_some() {
+            ReferenceTarget::Symbolic(Symbolic::from_bytes(line, peel)?)
+        } else {
+            ReferenceTarget::Direct(Direct::from_bytes(line)?)
         };
 
         Ok(target)
-- 
2.43.0


From 00f5ab5ea503298d1e09cc4120007599273cf135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:32 +0000
Subject: [PATCH 29/33] fix: skip blank lines that end in CRLF in references

---
 src/reference/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reference/parser.rs b/src/reference/parser.rs
index 6569e46..bd32462 100644
--- a/src/reference/parser.rs
+++ b/src/reference/parser.rs
@@ -112,7 +112,7 @@ impl<R: Read> Parser<R> {
     }
 
     pub fn reference_line_is_valid(&self, bytes: &[u8]) -> bool {
-        !INVALID_REFERENCE_START.contains(&bytes[0])
+        !INVALID_REFERENCE_START.contains(&bytes[0]) && !trim_end(bytes).is_empty()
     }
 
     pub fn consume_until(&mut self, ch: u8) -> Option<&[u8]> {
-- 
2.43.0


From a78c70f090096a393f3ab8191b81589889759eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:29 +0000
Subject: [PATCH 30/33] fix: report errors while listing references

An error from reading a directory cut the list of references short.
---
 src/reference/database.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/reference/database.rs b/src/reference/database.rs
index 622fcd4..0f51ad9 100644
--- a/src/reference/database.rs
+++ b/src/reference/database.rs
@@ -113,10 +113,9 @@ impl ReferenceDatabase {
     }
 
     fn get_file_paths_from_dir(&self, path: &Path) -> Vec<Result<PathBuf, Error>> {
-        match fs::read_dir(path) {
+        match fs::read_dir(path).and_then(|files| files.collect::<Result<Vec<_>, _>>()) {
             Ok(files) => files
-                .filter(|f| f.is_ok())
-                .map(|f| f.unwrap())
+                .into_iter()
                 .flat_map(|f| match f.file_type().map(|ft| ft.is_dir()) {
                     Ok(true) => self.get_file_paths_from_dir(&f.path()),
                     Ok(false) if f.path().extension() == Some(LOCK_EXTENSION.as_ref()) => Vec::new(),
-- 
2.43.0


From 782f7d15a1551a67eaba2bcb47d1b56a0e049bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:56 +0000
Subject: [PATCH 31/33] fix: begin the rescan interval before scanning for
 packs

A pack that appeared during the scan could go unnoticed for longer than
two seconds.
---
 src/object/database/packed.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/object/database/packed.rs b/src/object/database/packed.rs
index 67c79c6..1793000 100644
--- a/src/object/database/packed.rs
+++ b/src/object/database/packed.rs
@@ -149,11 +149,14 @@ impl PackedObjectDatabase {
             _ => (),
         }
 
+        // A pack that appears while scanning may be missed, so take the time before.
+        let refresh_start = Instant::now();
+
         let entries = match fs_err::read_dir(&self.path) {
             Ok(entries) => entries,
             // A repository without packs may not have the folder at all.
             Err(err) if err.kind() == io::ErrorKind::NotFound => {
-                *last_refresh_guard = Some(Instant::now());
+                *last_refresh_guard = Some(refresh_start);
                 return Ok(true);
             }
             Err(err) => return Err(err.into()),
@@ -185,7 +188,7 @@ impl PackedObjectDatabase {
             return Err(err);
         }
 
-        *last_refresh_guard = Some(Instant::now());
+        *last_refresh_guard = Some(refresh_start);
         Ok(true)
     }
 }
-- 
2.43.0


From f9b27a5d4f37ffb3bc833c4dd9ebc4d560b365f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:01 +0000
Subject: [PATCH 32/33] fix: keep the message of tags with additional headers

---
 src/object/tag.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/object/tag.rs b/src/object/tag.rs
index fe47d60..67b2e30 100644
--- a/src/object/tag.rs
+++ b/src/object/tag.rs
@@ -49,6 +49,13 @@ impl Tag {
 
         let tagger = parser.parse_signature(b"tagger ")?;
 
+        // Consume additional tag headers
+        while !parser.remaining_buffer().starts_with(b"\n") {
+            if parser.consume_until(b'\n').is_none() {
+                break;
+            }
+        }
+
         let message = if parser.consume_bytes(b"\n") {
             Some(parser.pos())
         } else {
-- 
2.43.0


From b28d6187655db209af4c4bf85da786399e880280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:18 +0000
Subject: [PATCH 33/33] fix: keep to the repository opened when the working
 directory changes

A repository opened by a relative path was looked up again, relative to the
working directory of the moment, on every access.
---
 src/repository.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/repository.rs b/src/repository.rs
index fd9f239..3adc7f7 100644
--- a/src/repository.rs
+++ b/src/repository.rs
@@ -1,3 +1,4 @@
+use std::env;
 use std::io;
 use std::path::PathBuf;
 
@@ -49,6 +50,13 @@ impl Repository {
             Err(err) => return Err(OpenError::from(err)),
         };
 
+        // Stay with this repository if the working directory of the process changes.
+        let dotgit = if dotgit.is_relative() {
+            env::current_dir()?.join(dotgit)
+        } else {
+            dotgit
+        };
+
         let object_database = ObjectDatabase::open(&dotgit);
         let reference_database = ReferenceDatabase::open(dotgit.clone());
 
-- 
2.43.0

