From 9001d2c4ce18eb55c4c728b30aab5ccab621eea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:15 +0000
Subject: [PATCH 01/27] fix: truncate the --output file before dumping the
 first slice

---
 src/drain/scatter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drain/scatter.rs b/src/drain/scatter.rs
index 80be049..6dad385 100644
--- a/src/drain/scatter.rs
+++ b/src/drain/scatter.rs
@@ -31,7 +31,7 @@ impl Drain {
         }
 
         let file = template.render(|_, _| 0)?;
-        let file = OpenOptions::new().read(false).write(true).create(true).open(file)?;
+        let file = OpenOptions::new().read(false).write(true).create(true).truncate(true).open(file)?;
         Ok(Drain::File(file))
     }
 }
-- 
2.43.0


From 60ca5c3a2f9dbcc610eb47ed8e184c7e90a82929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:15 +0000
Subject: [PATCH 02/27] fix: do not skip slices that stay unconsumed across two
 chunks when dumping

---
 src/drain/scatter.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/drain/scatter.rs b/src/drain/scatter.rs
index 6dad385..b7b3236 100644
--- a/src/drain/scatter.rs
+++ b/src/drain/scatter.rs
@@ -125,7 +125,7 @@ impl ScatterDrain {
 
             self.formatter
                 .format_segments(self.offset, stream, &segments[self.src_consumed..count], buf);
-            self.src_consumed += count;
+            self.src_consumed = count;
 
             // consumed bytes and count
             let (bytes, count) = self.src.consume(max_consume)?;
@@ -155,9 +155,9 @@ impl ScatterDrain {
                 self.file
                     .as_mut()
                     .unwrap()
-                    .dump_segment(&self.buf, self.offset + s[0].pos, self.lines + i)?;
+                    .dump_segment(&self.buf, self.offset + s[0].pos, self.lines + self.src_consumed + i)?;
             }
-            self.src_consumed += count;
+            self.src_consumed = count;
 
             // consumed bytes and count
             let (bytes, count) = self.src.consume(max_consume)?;
-- 
2.43.0


From c5eb2d5fea88cc2d127025e5cdf428fb03cbf785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:52 +0000
Subject: [PATCH 03/27] fix: append the whole stream at the tail of the tee
 cache and report its I/O errors

---
 src/byte/tee.rs | 49 +++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 47 insertions(+), 2 deletions(-)

diff --git a/src/byte/tee.rs b/src/byte/tee.rs
index 10ef49f..6d879a1 100644
--- a/src/byte/tee.rs
+++ b/src/byte/tee.rs
@@ -13,6 +13,15 @@ use tempfile::SpooledTempFile;
 struct TempFile {
     clear_eof: bool, // semaphore with a saturation counter
     file: SpooledTempFile,
+    error: Option<std::io::Error>, // the first error on writing the cache; reported in the next `fill_buf`
+}
+
+impl TempFile {
+    fn append(&mut self, stream: &[u8]) -> std::io::Result<()> {
+        // the cursor is shared with the reader. move it to the tail before writing
+        self.file.seek(SeekFrom::End(0))?;
+        self.file.write_all(stream)
+    }
 }
 
 pub struct TeeStream {
@@ -31,6 +40,7 @@ impl TeeStream {
         let tempfile = TempFile {
             clear_eof: false,
             file: SpooledTempFile::new(128 * BLOCK_SIZE),
+            error: None,
         };
 
         TeeStream {
@@ -50,6 +60,15 @@ impl TeeStream {
 
 impl ByteStream for TeeStream {
     fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
+        match self.cache.lock() {
+            Ok(mut cache) => {
+                if let Some(err) = cache.error.take() {
+                    return Err(err.into());
+                }
+            }
+            _ => panic!("failed to lock cache."),
+        }
+
         self.src.fill_buf(request)
     }
 
@@ -63,7 +82,9 @@ impl ByteStream for TeeStream {
 
         match self.cache.lock() {
             Ok(mut cache) => {
-                cache.file.write_all(&stream[..bytes]).unwrap();
+                if let Err(err) = cache.append(&stream[..bytes]) {
+                    cache.error = Some(err);
+                }
                 cache.clear_eof = true; // increment semaphore
             }
             _ => panic!("failed to lock cache."),
@@ -73,16 +94,40 @@ impl ByteStream for TeeStream {
     }
 }
 
+impl Drop for TeeStream {
+    fn drop(&mut self) {
+        // the consumer may leave the tail of the stream unconsumed (e.g., when it has found that
+        // no more slices are needed). forward the remainder so that the cache has the whole stream
+        loop {
+            match self.fill_buf(BLOCK_SIZE) {
+                Ok((true, 0)) => break,
+                Ok((_, bytes)) => self.consume(bytes),
+                Err(err) => {
+                    if let Ok(mut cache) = self.cache.lock() {
+                        cache
+                            .error
+                            .get_or_insert_with(|| std::io::Error::new(std::io::ErrorKind::Other, err));
+                    }
+                    break;
+                }
+            }
+        }
+    }
+}
+
 impl ByteStream for TeeStreamReader {
     fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
         match self.cache.lock() {
             Ok(mut cache) => {
+                if let Some(err) = cache.error.take() {
+                    return Err(err.into());
+                }
                 if cache.clear_eof {
                     self.buf.clear_eof();
                     cache.clear_eof = false; // decrement semaphore
                 }
                 self.buf.fill_buf(request, |_, buf| {
-                    cache.file.seek(SeekFrom::Start(self.offset as u64)).unwrap();
+                    cache.file.seek(SeekFrom::Start(self.offset as u64))?;
 
                     let len = buf.fill_uninit(BLOCK_SIZE, |buf| Ok(cache.file.read(buf)?))?;
                     self.offset += len;
-- 
2.43.0


From f7ab8665b24bdd83722eba1a07b043a38e6b7ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:52 +0000
Subject: [PATCH 04/27] fix: feed the whole stream to --patch-back and report
 errors around CMD instead of truncating the output

---
 src/drain/patch.rs | 135 ++++++++++++++++++++++++++++++---------------
 src/pipeline.rs    |   8 ++-
 2 files changed, 97 insertions(+), 46 deletions(-)

diff --git a/src/drain/patch.rs b/src/drain/patch.rs
index 7f4c767..2cb096c 100644
--- a/src/drain/patch.rs
+++ b/src/drain/patch.rs
@@ -5,10 +5,11 @@ use crate::byte::{ByteStream, PatchStream, RawStream};
 use crate::params::BLOCK_SIZE;
 use crate::segment::SegmentStream;
 use crate::text::{InoutFormat, TextFormatter};
-use anyhow::Result;
-use std::io::Write;
+use anyhow::{anyhow, Context, Result};
+use std::io::{ErrorKind, Write};
 use std::process::{Child, ChildStdin, Command, Stdio};
 use std::thread::JoinHandle;
+use std::time::Duration;
 
 struct BashPipe {
     child: Child,
@@ -19,31 +20,36 @@ struct BashPipeWriter {
 }
 
 impl BashPipe {
-    fn new(command: &str) -> Self {
+    fn new(command: &str) -> Result<Self> {
         let child = Command::new("bash")
             .args(["-c", command])
             .stdin(Stdio::piped())
             .stdout(Stdio::piped())
-            .spawn()
-            .unwrap();
-        BashPipe { child }
+            .spawn()?;
+        Ok(BashPipe { child })
     }
 
-    fn spawn_reader(&mut self) -> RawStream {
-        let output = self.child.stdout.take().unwrap();
-        RawStream::new(Box::new(output), 1, 0)
+    fn spawn_reader(&mut self) -> Result<RawStream> {
+        let output = self.child.stdout.take().context("failed to take stdout of the CMD process")?;
+        Ok(RawStream::new(Box::new(output), 1, 0))
     }
 
-    fn spawn_writer(&mut self) -> BashPipeWriter {
-        let input = self.child.stdin.take().unwrap();
-        BashPipeWriter { input: Some(input) }
+    fn spawn_writer(&mut self) -> Result<BashPipeWriter> {
+        let input = self.child.stdin.take().context("failed to take stdin of the CMD process")?;
+        Ok(BashPipeWriter { input: Some(input) })
     }
 }
 
 impl BashPipeWriter {
-    fn write_all(&mut self, buf: &[u8]) -> std::io::Result<usize> {
-        self.input.as_ref().unwrap().write_all(buf)?;
-        Ok(buf.len())
+    fn write_all(&mut self, buf: &[u8]) -> std::io::Result<()> {
+        if let Some(input) = &mut self.input {
+            match input.write_all(buf) {
+                // the command doesn't need the remainder anymore
+                Err(err) if err.kind() == ErrorKind::BrokenPipe => self.close(),
+                ret => return ret,
+            }
+        }
+        Ok(())
     }
 
     fn close(&mut self) {
@@ -51,69 +57,108 @@ impl BashPipeWriter {
     }
 }
 
+// the original stream, cached by the feeder thread. the current tail of the cache is regarded as
+// the end of the stream only after the feeder thread has finished
+struct CachedStream {
+    src: Box<dyn ByteStream>,
+    thread: Option<JoinHandle<Result<()>>>,
+}
+
+impl ByteStream for CachedStream {
+    fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
+        loop {
+            // this test must come before `fill_buf`
+            let is_finished = self.thread.as_ref().map_or(true, |x| x.is_finished());
+
+            let (is_eof, bytes) = self.src.fill_buf(request)?;
+            if is_finished {
+                if let Some(thread) = self.thread.take() {
+                    thread.join().map_err(|_| anyhow!("the thread feeding CMD aborted"))??;
+                }
+                return Ok((is_eof, bytes));
+            }
+            if bytes > 0 {
+                return Ok((false, bytes));
+            }
+
+            std::thread::sleep(Duration::from_millis(1));
+        }
+    }
+
+    fn as_slice(&self) -> &[u8] {
+        self.src.as_slice()
+    }
+
+    fn consume(&mut self, amount: usize) {
+        self.src.consume(amount)
+    }
+}
+
 pub struct PatchDrain {
     patch: PatchStream,
-    prev_bytes: usize,
     pipe: BashPipe,
-    thread: Option<JoinHandle<()>>,
 }
 
 impl PatchDrain {
-    pub fn new(patch: Box<dyn SegmentStream>, original: Box<dyn ByteStream>, command: &str, format: &InoutFormat) -> Self {
-        let mut pipe = BashPipe::new(command);
-        let mut writer = pipe.spawn_writer();
-        let formatter = TextFormatter::new(format, (0, 0));
-
-        let thread = std::thread::spawn(move || {
+    pub fn new(
+        patch: Box<dyn SegmentStream>,
+        original: Box<dyn ByteStream>,
+        command: &str,
+        out_format: &InoutFormat,
+        patch_format: &InoutFormat,
+    ) -> Result<Self> {
+        let mut pipe = BashPipe::new(command)?;
+        let mut writer = pipe.spawn_writer()?;
+        let formatter = TextFormatter::new(out_format, (0, 0));
+
+        let thread = std::thread::spawn(move || -> Result<()> {
             let mut patch = patch;
             let mut buf = Vec::new();
             let mut offset = 0;
+            let mut scanned = 0;
 
             loop {
-                let (is_eof, bytes, _, max_consume) = patch.fill_segment_buf().unwrap();
+                let (is_eof, bytes, count, max_consume) = patch.fill_segment_buf()?;
                 if is_eof && bytes == 0 {
                     break;
                 }
 
                 let (stream, segments) = patch.as_slices();
-                formatter.format_segments(offset, stream, segments, &mut buf);
-                offset += patch.consume(max_consume).unwrap().0;
+                formatter.format_segments(offset, stream, &segments[scanned..count], &mut buf);
+
+                // some segments may be left unconsumed
+                let (bytes, consumed) = patch.consume(max_consume)?;
+                scanned = count - consumed;
+                offset += bytes;
 
                 if buf.len() >= BLOCK_SIZE {
-                    writer.write_all(&buf).unwrap();
+                    writer.write_all(&buf)?;
                     buf.clear();
                 }
             }
 
-            writer.write_all(&buf).unwrap();
+            writer.write_all(&buf)?;
             writer.close();
+            Ok(())
         });
 
-        let reader = pipe.spawn_reader();
-        let patch = PatchStream::new(original, Box::new(reader), format);
-
-        PatchDrain {
-            patch,
-            prev_bytes: 0,
-            pipe,
+        let original = Box::new(CachedStream {
+            src: original,
             thread: Some(thread),
-        }
+        });
+        let reader = pipe.spawn_reader()?;
+        let patch = PatchStream::new(original, Box::new(reader), patch_format);
+
+        Ok(PatchDrain { patch, pipe })
     }
 }
 
 impl ByteStream for PatchDrain {
     fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
         let (is_eof, bytes) = self.patch.fill_buf(request)?;
-
-        if is_eof && bytes == self.prev_bytes {
-            if let Some(thread) = self.thread.take() {
-                thread.join().unwrap();
-            }
-
-            self.pipe.child.wait().unwrap();
+        if is_eof && bytes == 0 {
+            self.pipe.child.wait()?;
         }
-
-        self.prev_bytes = bytes;
         Ok((is_eof, bytes))
     }
 
diff --git a/src/pipeline.rs b/src/pipeline.rs
index 00658e7..c19e923 100644
--- a/src/pipeline.rs
+++ b/src/pipeline.rs
@@ -420,7 +420,13 @@ impl Pipeline {
                     (cache, NodeInstance::Byte(next))
                 }
                 (PatchBack(command), NodeInstance::Segment(prev)) => {
-                    let next = Box::new(PatchDrain::new(prev, cache.unwrap(), command, &self.patch_format));
+                    let next = Box::new(PatchDrain::new(
+                        prev,
+                        cache.unwrap(),
+                        command,
+                        &self.out_format,
+                        &self.patch_format,
+                    )?);
                     (None, NodeInstance::Byte(next))
                 }
                 (next, _) => return Err(anyhow!("unallowed node {:?} found after (internal error)", next)),
-- 
2.43.0


From c3570de2d612cf8a1e2f825a1a7b7215e5dabce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:52 +0000
Subject: [PATCH 05/27] fix: report a malformed first record as an error
 instead of panicking

---
 src/byte/patch.rs | 13 +++++++++----
 src/byte/text.rs  | 14 +++++++++-----
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/byte/patch.rs b/src/byte/patch.rs
index 6fe8beb..72772bf 100644
--- a/src/byte/patch.rs
+++ b/src/byte/patch.rs
@@ -67,25 +67,30 @@ pub struct PatchStream {
     buf: StreamBuf,
     skip: usize,
     offset: usize,
+    is_primed: bool, // true if the first patch record has been read
 }
 
 impl PatchStream {
     pub fn new(src: Box<dyn ByteStream>, patch: Box<dyn ByteStream>, format: &InoutFormat) -> Self {
-        let mut patch = PatchFeeder::new(patch, format);
-        patch.fill_buf().unwrap();
-
         PatchStream {
             src,
-            patch,
+            patch: PatchFeeder::new(patch, format),
             buf: StreamBuf::new(),
             skip: 0,
             offset: 0,
+            is_primed: false,
         }
     }
 }
 
 impl ByteStream for PatchStream {
     fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
+        // read the first record
+        if !self.is_primed {
+            self.patch.fill_buf()?;
+            self.is_primed = true;
+        }
+
         self.buf.fill_buf(request, |_, buf| {
             while self.skip > 0 {
                 let (is_eof, len) = self.src.fill_buf(BLOCK_SIZE)?;
diff --git a/src/byte/text.rs b/src/byte/text.rs
index ec58818..4371025 100644
--- a/src/byte/text.rs
+++ b/src/byte/text.rs
@@ -83,24 +83,28 @@ pub struct TextStream {
     line: TextFeeder,
     buf: StreamBuf,
     offset: usize,
+    is_primed: bool, // true if the first line has been read
 }
 
 impl TextStream {
     pub fn new(src: Box<dyn ByteStream>, align: usize, filler: u8, format: &InoutFormat) -> Self {
-        // read the first line
-        let mut line = TextFeeder::new(src, format);
-        line.fill_buf().unwrap();
-
         TextStream {
-            line,
+            line: TextFeeder::new(src, format),
             buf: StreamBuf::new_with_align(align, filler),
             offset: 0,
+            is_primed: false,
         }
     }
 }
 
 impl ByteStream for TextStream {
     fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
+        // read the first line
+        if !self.is_primed {
+            self.line.fill_buf()?;
+            self.is_primed = true;
+        }
+
         let filler = self.buf.filler();
         self.buf.fill_buf(request, |_, buf| {
             if self.line.offset == usize::MAX {
-- 
2.43.0


From e63cc0692a378b899163fb1bcfd8d3b1f6e95d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:47 +0000
Subject: [PATCH 06/27] fix: report --walk failures as errors instead of
 panicking

---
 src/segment/walk.rs | 57 +++++++++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 23 deletions(-)

diff --git a/src/segment/walk.rs b/src/segment/walk.rs
index d089694..9c7724d 100644
--- a/src/segment/walk.rs
+++ b/src/segment/walk.rs
@@ -5,7 +5,7 @@ use super::{Segment, SegmentStream};
 use crate::byte::ByteStream;
 use crate::eval::{Rpn, VarAttr};
 use crate::params::BLOCK_SIZE;
-use anyhow::Result;
+use anyhow::{anyhow, Context, Result};
 use std::collections::HashMap;
 
 struct SpanFetcher {
@@ -31,19 +31,22 @@ impl SpanFetcher {
         Ok(SpanFetcher { expr, rpn })
     }
 
-    fn get_array_element(skip: usize, elem_size: usize, index: i64, src: &mut Box<dyn ByteStream>) -> i64 {
+    fn get_array_element(skip: usize, elem_size: usize, index: i64, src: &mut Box<dyn ByteStream>) -> Result<i64> {
         debug_assert!((1..=8).contains(&elem_size) && elem_size.is_power_of_two());
 
         if index < 0 {
-            panic!("slice index being negative (got: {index}).");
+            return Err(anyhow!("slice index being negative (got: {index})."));
         }
 
-        let offset = skip + index as usize * elem_size;
-        let min_fill_bytes = offset + elem_size;
+        let offset = (index as usize).checked_mul(elem_size).and_then(|x| x.checked_add(skip));
+        let min_fill_bytes = offset.and_then(|x| x.checked_add(elem_size));
+        let (offset, min_fill_bytes) = offset
+            .zip(min_fill_bytes)
+            .with_context(|| format!("slice index being too large (got: {index})."))?;
 
-        let (_, bytes) = src.fill_buf(min_fill_bytes).expect("failed to feed the input stream");
+        let (_, bytes) = src.fill_buf(min_fill_bytes).context("failed to feed the input stream")?;
         if bytes < min_fill_bytes {
-            return 0;
+            return Ok(0);
         }
 
         // always in the little endian for now
@@ -54,25 +57,33 @@ impl SpanFetcher {
         // leave the lower typesize bits (8 bits for "b", 16 bits for "h", ...)
         let val = i64::from_le_bytes(stream.try_into().unwrap());
         let shift = 64 - 8 * elem_size;
-        (val << shift) >> shift
+        Ok((val << shift) >> shift)
     }
 
-    fn get_next_span(&self, skip: usize, src: &mut Box<dyn ByteStream>) -> usize {
-        let getter = |id: usize, val: i64| -> i64 { Self::get_array_element(skip, id, val, src) };
+    fn get_next_span(&self, skip: usize, src: &mut Box<dyn ByteStream>) -> Result<usize> {
+        // the getter can't return an error so we leave it outside
+        let mut error = None;
+        let getter = |id: usize, val: i64| -> i64 {
+            Self::get_array_element(skip, id, val, src).unwrap_or_else(|err| {
+                error.get_or_insert(err);
+                0
+            })
+        };
 
         let val = self.rpn.evaluate(getter);
-        if val.is_err() {
-            panic!("failed on evaluating expression: {:?}", &self.expr);
+        if let Some(err) = error {
+            return Err(err.context(format!("failed on evaluating expression: {:?}", &self.expr)));
         }
 
-        let val = val.unwrap();
+        let val = val.with_context(|| format!("failed on evaluating expression: {:?}", &self.expr))?;
         if val <= 0 {
-            panic!(
+            return Err(anyhow!(
                 "slice span being non-positive on evaluating expression: {:?} (got: {}).",
-                &self.expr, val
-            );
+                &self.expr,
+                val
+            ));
         }
-        val as usize
+        Ok(val as usize)
     }
 }
 
@@ -105,15 +116,15 @@ impl WalkSlicer {
         })
     }
 
-    fn calc_next_chunk_len(&mut self) -> usize {
-        let mut chunk_len = 0;
+    fn calc_next_chunk_len(&mut self) -> Result<usize> {
+        let mut chunk_len = 0usize;
         for (i, f) in self.fetchers.iter().enumerate() {
-            let span = f.get_next_span(self.pos, &mut self.src);
+            let span = f.get_next_span(self.pos, &mut self.src)?;
             self.spans[i] = span;
 
-            chunk_len += span;
+            chunk_len = chunk_len.saturating_add(span);
         }
-        chunk_len
+        Ok(chunk_len)
     }
 
     fn extend_segment_buf(&mut self, chunk_len: usize) -> Result<(bool, usize)> {
@@ -152,7 +163,7 @@ impl SegmentStream for WalkSlicer {
         }
 
         let (is_eof, bytes) = loop {
-            let chunk_len = self.calc_next_chunk_len();
+            let chunk_len = self.calc_next_chunk_len()?;
             if self.pos + chunk_len > bytes {
                 break (is_eof, bytes);
             }
-- 
2.43.0


From 89ee79cb01a732eed80bcc952b78326a7ac04009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:19 +0000
Subject: [PATCH 07/27] fix: handle --guide records that are unsorted or beyond
 the end of the stream without panicking

---
 src/segment/guided.rs | 46 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/segment/guided.rs b/src/segment/guided.rs
index 35722b0..94e8955 100644
--- a/src/segment/guided.rs
+++ b/src/segment/guided.rs
@@ -6,7 +6,7 @@ use crate::byte::ByteStream;
 use crate::params::BLOCK_SIZE;
 use crate::text::parser::TextParser;
 use crate::text::InoutFormat;
-use anyhow::Result;
+use anyhow::{anyhow, Result};
 
 pub struct GuidedSlicer {
     src: Box<dyn ByteStream>,
@@ -16,6 +16,7 @@ pub struct GuidedSlicer {
     guide_consumed: usize,
     src_consumed: usize,
     max_consume: usize,
+    last_offset: usize,
 }
 
 impl GuidedSlicer {
@@ -28,12 +29,16 @@ impl GuidedSlicer {
             guide_consumed: 0,
             src_consumed: 0,
             max_consume: 0,
+            last_offset: 0,
         }
     }
 
     fn extend_segment_buf(&mut self, is_eof: bool, bytes: usize) -> Result<()> {
-        // all existing segments must be covered as we requested longer
-        debug_assert!(self.segments.last().map_or(0, |x| x.tail()) <= bytes);
+        // all existing segments must be covered as we requested longer, unless the stream ended before the tail of the last one
+        debug_assert!(is_eof || self.segments.last().map_or(0, |x| x.tail()) <= bytes);
+        if is_eof {
+            self.clip_segments(bytes);
+        }
 
         // first update max_consume to the end of the current chunk of the stream
         // (may be shortened in the loop)
@@ -51,24 +56,41 @@ impl GuidedSlicer {
                 break;
             }
             let (offset, span) = ret.unwrap();
+            if offset < self.last_offset {
+                return Err(anyhow!(
+                    "records in the guide file must be sorted by their offsets ({:?} found after {:?})",
+                    offset,
+                    self.last_offset
+                ));
+            }
+            self.last_offset = offset;
 
             // slice the stream out by the guide
-            let pos = offset - self.src_consumed;
-            let len = if is_eof {
-                std::cmp::min(offset + span, tail) - offset
-            } else {
-                span
-            };
-            self.segments.push(Segment { pos, len });
+            self.segments.push(Segment {
+                pos: offset - self.src_consumed,
+                len: span,
+            });
 
-            if offset + span > tail {
-                self.max_consume = std::cmp::min(self.max_consume, pos);
+            if is_eof {
+                self.clip_segments(bytes);
+            } else if offset.saturating_add(span) > tail {
+                self.max_consume = std::cmp::min(self.max_consume, offset - self.src_consumed);
                 self.guide_consumed = self.segments.len() - 1; // do not expose the last segment
                 break;
             }
         }
         Ok(())
     }
+
+    fn clip_segments(&mut self, bytes: usize) {
+        // only the last one can go beyond the end of the stream
+        if let Some(last) = self.segments.last_mut() {
+            last.len = std::cmp::min(last.len, bytes.saturating_sub(last.pos));
+            if last.pos >= bytes {
+                self.segments.pop();
+            }
+        }
+    }
 }
 
 impl SegmentStream for GuidedSlicer {
-- 
2.43.0


From cca44693e1ed5e79da46ec14e94e9cc234b219e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:19 +0000
Subject: [PATCH 08/27] fix: evaluate products, bitwise operators, and division
 by zero in expressions without panicking or giving a wrong value

---
 src/eval.rs | 95 ++++++++++++++++++++++++++++++-----------------------
 1 file changed, 54 insertions(+), 41 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 9b60d7b..27bd0ea 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -62,8 +62,18 @@ fn latter_precedes(former: &Token, latter: &Token) -> bool {
             } else if is_pow(former) || is_pow(latter) {
                 return is_pow(latter);
             }
-            debug_assert!(is_cmp(former) && is_cmp(latter));
-            false
+
+            // comparison -> '&' -> '^' -> '|', in the same order as C
+            let rank = |op: char| -> usize {
+                match op {
+                    '|' => 0,
+                    '^' => 1,
+                    '&' => 2,
+                    _ => 3,
+                }
+            };
+            debug_assert!([former, latter].iter().all(|&op| is_cmp(op) || rank(op) < 3));
+            rank(latter) > rank(former)
         }
         _ => true,
     }
@@ -210,18 +220,17 @@ where
         skip_mask = (skip_mask << 1) | (skip as u64);
     };
 
-    let mut i = 0;
-    let mut digits = [0u8; 32];
-    let mut push_digit = |digit: i64| {
-        digits[i] = digit as u8;
-        i += 1;
-    };
+    let mut digits = Vec::new();
+    let mut push_digit = |digit: i64| digits.push(digit);
 
     let (skip, digit) = parse_char(first)?;
     push_skip_mask(skip);
     push_digit(digit);
 
     while let Some((skip, digit)) = parse_char(*it.peek().unwrap_or(&'\n')) {
+        if num_base < 16 && digit == 14 {
+            break; // not a digit but the 'E' qualifier
+        }
         push_skip_mask(skip);
         if !skip {
             push_digit(digit);
@@ -233,12 +242,12 @@ where
     if (skip_mask & ((skip_mask << 1) | 1)) != 0 {
         return None;
     }
-    let mut val = 0;
-    for &digit in &digits[..i] {
-        if digit as i64 >= num_base {
+    let mut val = 0i64;
+    for &digit in &digits {
+        if digit >= num_base {
             return None;
         }
-        val = val * num_base + digit as i64;
+        val = val.checked_mul(num_base)?.checked_add(digit)?;
     }
 
     let scaler = match it.peek() {
@@ -246,11 +255,11 @@ where
         Some(&x) if tolower(x) == 'm' => parse_prefix(2, it)?,
         Some(&x) if tolower(x) == 'g' => parse_prefix(3, it)?,
         Some(&x) if tolower(x) == 't' => parse_prefix(4, it)?,
-        Some(&x) if tolower(x) == 'e' => parse_prefix(5, it)?,
+        Some(&x) if tolower(x) == 'e' => parse_prefix(6, it)?,
         _ => 1,
     };
 
-    Some(Val(val * scaler))
+    Some(Val(val.checked_mul(scaler)?))
 }
 
 fn parse_var<I>(first: char, vars: Option<&HashMap<&[u8], VarAttr>>, it: &mut Peekable<I>) -> Option<Token>
@@ -309,7 +318,7 @@ fn mark_prefices(tokens: &mut [Token]) -> Option<()> {
         let (former, latter) = tokens.split_at_mut(1);
         match (former[0], latter[0]) {
             // fixup unary op
-            (Op(_) | Paren('('), Op(y)) if is_unary(y) => {
+            (Op(_) | Paren('(' | '['), Op(y)) if is_unary(y) => {
                 latter[0] = Prefix(if y == '~' { '!' } else { y });
             }
             // prefix followed by an expression
@@ -449,15 +458,16 @@ fn apply_prefix(c: char, x: i64) -> i64 {
     }
 }
 
-fn apply_op(c: char, x: i64, y: i64) -> i64 {
-    match c {
+fn apply_op(c: char, x: i64, y: i64) -> Option<i64> {
+    // `None` for division by zero (or overflow in division)
+    let val = match c {
         '+' => x + y,
         '-' => x - y,
         '#' => -(x + y),
         '~' => -(x - y),
         '*' => x * y,
-        '/' => x / y,
-        '%' => x % y,
+        '/' => x.checked_div(y)?,
+        '%' => x.checked_rem(y)?,
         '&' => x & y,
         '|' => x | y,
         '^' => x ^ y,
@@ -483,7 +493,8 @@ fn apply_op(c: char, x: i64, y: i64) -> i64 {
             }
         } // FIXME
         _ => panic!("unknown op: {c:?}"),
-    }
+    };
+    Some(val)
 }
 
 fn is_comm_1(op: char) -> bool {
@@ -491,10 +502,7 @@ fn is_comm_1(op: char) -> bool {
 }
 
 fn is_comm_2(op1: char, op2: char) -> bool {
-    if is_addsub(op1) && is_addsub(op2) {
-        return true;
-    }
-    is_comm_1(op1) && op1 == op2
+    is_addsub(op1) && is_addsub(op2)
 }
 
 // fn is_comm_3(op1: char, op2: char, op3: char) -> bool {
@@ -639,7 +647,7 @@ fn rotate_left(tokens: &mut [(Token, usize)]) -> Option<(bool, usize)> {
 
                 let (s1, op1) = peel_sign_from_op(op1);
                 let (s2, op2) = peel_sign_from_op(op2);
-                let (op1, op2) = (fuse_sign3(s2, op1, op2), fuse_sign_op(s1, fuse_sign2(s2, op1)));
+                let (op1, op2) = (fuse_sign2(s2, op1), fuse_sign_op(s1, fuse_sign3(s2, op1, op2)));
                 save_and_flip(tokens, root - rlhs, Op(op1), lhs - rlhs);
                 save_and_flip(tokens, root, Op(op2), rlhs);
 
@@ -687,10 +695,10 @@ fn sort_tokens(tokens: &mut [(Token, usize)]) -> Option<(bool, usize)> {
                 save_and_flip(tokens, root, Op(op1), llhs);
                 return Some((true, root));
             }
-            if let (Var(x, xc), Var(y, yc)) = (tokens[lhs - 1].0, y) {
+            if let ((Var(x, xc), 0), (Var(y, yc), 0)) = (tokens[lhs - 1], tokens[root - 1]) {
                 if x == y {
-                    // squash the two nodes if they have the same variable id
-                    tokens[lhs - 1].0 = Var(x, apply_op(op2, xc, yc));
+                    // squash the two nodes if they have the same (non-array) variable id
+                    tokens[lhs - 1].0 = Var(x, apply_op(op2, xc, yc)?);
                     save_and_flip(tokens, lhs, Op(op1), 2);
                     return Some((false, lhs));
                 }
@@ -706,10 +714,10 @@ fn sort_tokens(tokens: &mut [(Token, usize)]) -> Option<(bool, usize)> {
                 save_and_flip(tokens, root, Op(swap_op_hands(op)), ylen + 1);
                 return Some((false, root));
             }
-            if let (Var(x, xc), Var(y, yc)) = (x, y) {
-                if x == y {
-                    // squash the two nodes if they have the same variable id
-                    tokens[lhs].0 = Var(x, apply_op(op, xc, yc));
+            if let ((Var(x, xc), 0), (Var(y, yc), 0)) = (tokens[lhs], tokens[root - 1]) {
+                if x == y && is_addsub(op) {
+                    // squash the two nodes if they have the same (non-array) variable id
+                    tokens[lhs].0 = Var(x, apply_op(op, xc, yc)?);
                     return Some((false, lhs));
                 }
             }
@@ -733,8 +741,13 @@ fn fold_constants(tokens: &mut [(Token, usize)]) -> Option<usize> {
     match (tokens[lhs].0, tokens[root - 1].0, tokens[root].0) {
         // 2 + 3 => 5 (leaf)
         (Val(x), Val(y), Op(op)) => {
-            tokens[lhs].0 = Val(apply_op(op, x, y));
-            Some(lhs)
+            match apply_op(op, x, y) {
+                Some(val) => {
+                    tokens[lhs].0 = Val(val);
+                    Some(lhs)
+                }
+                _ => Some(root), // left unfolded; it's an error to evaluate it
+            }
         }
         // x 2 * => x(2)
         (Var(id, c), Val(x), Op('*')) => {
@@ -748,7 +761,7 @@ fn fold_constants(tokens: &mut [(Token, usize)]) -> Option<usize> {
                 let (s2, op2) = peel_sign_from_op(op2);
                 let (op1, op2) = (fuse_sign_op(fuse_sign2(s1, s2), op1), fuse_sign3(s1, op1, op2));
 
-                tokens[lhs - 1].0 = Val(apply_op(op2, x, y));
+                tokens[lhs - 1].0 = Val(apply_op(op2, x, y)?);
                 save_and_flip(tokens, lhs, Op(op1), 2);
                 Some(lhs)
             } else {
@@ -789,7 +802,7 @@ fn remove_identity(tokens: &mut [(Token, usize)]) -> Option<usize> {
             tokens[lhs].0 = Var(id, apply_prefix('-', c));
             Some(lhs)
         }
-        ((Var(_, 0), _), x, Op(op)) if is_addsub(op) => {
+        ((Var(_, 0), 0), x, Op(op)) if is_addsub(op) => {
             // this arm applies to lhs, the special case for the leftmost subtree
             let (s, op) = peel_sign_from_op(op);
             let op = fuse_sign2(s, op);
@@ -798,7 +811,7 @@ fn remove_identity(tokens: &mut [(Token, usize)]) -> Option<usize> {
                     tokens[lhs].0 = Val(apply_prefix(op, x));
                     Some(lhs)
                 }
-                Var(id, c) => {
+                Var(id, c) if tokens[root - 1].1 == 0 => {
                     tokens[lhs].0 = Var(id, apply_prefix(op, c));
                     Some(lhs)
                 }
@@ -855,7 +868,7 @@ fn remove_prefix_unary(tokens: &mut [(Token, usize)]) -> Option<usize> {
 
     match (tokens[lhs], tokens[root].0) {
         ((Prefix(s1), llhs), Prefix(s2)) => {
-            if s1 == s2 {
+            if s1 == s2 && s1 != 'G' {
                 // x ! ! => x
                 remove_prefix_unary(&mut tokens[..lhs - llhs + 1])
             } else if is_addsub(s1) && is_addsub(s2) {
@@ -911,14 +924,14 @@ fn remove_prefix_binary(tokens: &mut [(Token, usize)]) -> Option<usize> {
     match (tokens[lhs], tokens[root - 1].0, tokens[root].0) {
         (x, y, Op(op)) if is_addsub(op) => {
             let (s1, lhs, root) = match x {
-                (Prefix(s1), llhs) => {
+                (Prefix(s1), llhs) if is_addsub(s1) => {
                     tokens[lhs - llhs + 1..].rotate_left(llhs);
                     (s1, lhs - llhs, root - llhs)
                 }
                 _ => ('+', lhs, root),
             };
             let (s2, root) = match y {
-                Prefix(s2) => (s2, root - 1),
+                Prefix(s2) if is_addsub(s2) => (s2, root - 1),
                 _ => ('+', root),
             };
             save_and_flip(tokens, root, Op(gather_sign2(s1, op, s2)), root - lhs);
@@ -1173,7 +1186,7 @@ where
             (Op(op), _) => {
                 let y = stack.pop().context(starved)?;
                 let x = stack.last_mut().context(starved)?;
-                *x = apply_op(op, *x, y);
+                *x = apply_op(op, *x, y).with_context(|| format!("failed to evaluate {:?} {} {:?} (division by zero?)", *x, op, y))?;
             }
             (Var(id, c), lhs) => {
                 if lhs == 0 {
-- 
2.43.0


From 82e5becbddf3ed5673e03d8af0b789b627a1badd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:12 +0000
Subject: [PATCH 09/27] fix: reject unsupported formats, empty pagers, and e..s
 ranges without panicking; use the documented pager options

---
 src/main.rs            |  5 +++--
 src/mapper.rs          |  2 +-
 src/pipeline.rs        |  6 ++++++
 src/text/mod.rs        | 23 ++++++++++++++++++++++-
 src/text/parser/mod.rs |  2 +-
 5 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 35ae6de..805d43a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -208,9 +208,10 @@ fn build_drain(pager: &Option<String>) -> Result<(Option<Child>, Box<dyn Write>)
         return Ok((None, Box::new(std::io::stdout())));
     }
 
-    let pager = pager.unwrap_or_else(|| "less -S -F".to_string());
+    let pager = pager.unwrap_or_else(|| "less -S -F -X".to_string());
     let args: Vec<_> = pager.as_str().split_whitespace().collect();
-    let mut child = std::process::Command::new(args[0]).args(&args[1..]).stdin(Stdio::piped()).spawn()?;
+    let (program, args) = args.split_first().context("empty PAGER command")?;
+    let mut child = std::process::Command::new(program).args(args).stdin(Stdio::piped()).spawn()?;
 
     let input = child.stdin.take().context("failed to take stdin of the PAGER process")?;
     Ok((Some(child), Box::new(input)))
diff --git a/src/mapper.rs b/src/mapper.rs
index 83f6920..44a767a 100644
--- a/src/mapper.rs
+++ b/src/mapper.rs
@@ -195,7 +195,7 @@ impl RangeMapper {
     pub fn trans_offset(&self) -> usize {
         match (self.start, self.end) {
             (StartAnchored(x), EndAnchored(_)) => x,
-            (EndAnchored(_), StartAnchored(x)) => x - 1,
+            (EndAnchored(_), StartAnchored(x)) => x.saturating_sub(1),
             _ => usize::MAX,
         }
     }
diff --git a/src/pipeline.rs b/src/pipeline.rs
index c19e923..70cf152 100644
--- a/src/pipeline.rs
+++ b/src/pipeline.rs
@@ -280,6 +280,12 @@ impl Pipeline {
             .out_format
             .clone()
             .unwrap_or_else(|| InoutFormat::from_str_with_columns(default_out_signature, cols).unwrap());
+        if !in_format.is_parsable() {
+            return Err(anyhow!("unsupported input format: {:?}", in_format));
+        }
+        if !out_format.is_formattable() {
+            return Err(anyhow!("unsupported output format: {:?}", out_format));
+        }
         let patch_format = InoutFormat::from_str_with_columns("xxx", cols).unwrap();
 
         // background byte
diff --git a/src/text/mod.rs b/src/text/mod.rs
index af28431..9f62635 100644
--- a/src/text/mod.rs
+++ b/src/text/mod.rs
@@ -21,7 +21,9 @@ pub enum ColumnFormat {
 
 impl ColumnFormat {
     fn from_str(s: &str) -> Result<Self> {
-        assert!(!s.is_empty());
+        if s.is_empty() {
+            return Err(anyhow!("empty input/output format specifier"));
+        }
 
         let b = s.as_bytes();
         match (b[0], b.len() > 1) {
@@ -88,6 +90,25 @@ impl InoutFormat {
         Self::from_str_with_columns(config, 16)
     }
 
+    // true if `TextParser` (or the raw stream) is capable of handling the format
+    pub fn is_parsable(&self) -> bool {
+        use ColumnFormat::*;
+        let is_header_parsable = |x: &ColumnFormat| matches!(x, None | Decimal | Hexadecimal);
+
+        self.is_binary() || (is_header_parsable(&self.offset) && is_header_parsable(&self.span) && matches!(self.body, None | Hexadecimal))
+    }
+
+    // true if `TextFormatter` is capable of handling the format
+    pub fn is_formattable(&self) -> bool {
+        use ColumnFormat::*;
+
+        self.is_binary()
+            || matches!(
+                (&self.offset, &self.span, &self.body),
+                (Hexadecimal, Hexadecimal, Hexadecimal) | (None, None, Hexadecimal) | (Decimal, Decimal, Hexadecimal)
+            )
+    }
+
     pub fn is_gapless(&self) -> bool {
         self.offset == ColumnFormat::None && self.span == ColumnFormat::None
     }
diff --git a/src/text/parser/mod.rs b/src/text/parser/mod.rs
index 2f36c5d..fa787cb 100644
--- a/src/text/parser/mod.rs
+++ b/src/text/parser/mod.rs
@@ -279,7 +279,7 @@ impl LineCache {
             }
 
             v.push('"');
-            v.push_str(unsafe { std::str::from_utf8_unchecked(&input[..len]) });
+            v.push_str(&String::from_utf8_lossy(&input[..len]));
             if len == 32 {
                 v.pop();
                 v.push_str("...");
-- 
2.43.0


From e1f670d5362d793a21105dc082129faae290bfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:41 +0000
Subject: [PATCH 10/27] fix: count the default input when checking that stdin
 is used only once

---
 src/main.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 805d43a..fde19f5 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -138,15 +138,17 @@ fn main() {
 
 fn main_impl(command: &mut clap::Command) -> Result<()> {
     let args = Args::from_arg_matches(&command.get_matches_mut())?;
-    if args.count_stdin() + args.pipeline.count_stdin() > 1 {
+    let pipeline = Pipeline::from_args(&args.pipeline)?;
+
+    // stdin is the default input when no file is given
+    let stdin_by_default = args.inputs.is_empty() && !pipeline.is_inplace();
+    if args.count_stdin() + args.pipeline.count_stdin() + stdin_by_default as usize > 1 {
         return Err(anyhow!("stdin (\"-\" or \"/dev/stdin\") must not be used more than once"));
     }
     if args.is_command_alone() {
         return Err(anyhow!("no input nor output found"));
     }
 
-    let pipeline = Pipeline::from_args(&args.pipeline)?;
-
     // process the stream
     if pipeline.is_inplace() {
         if args.count_stdin() > 0 {
-- 
2.43.0


From 1330715f81cdf3566886f774b2bcd1e53d862835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 11/27] fix: align the decoded stream, not the text, when
 --in-format is a text format

---
 src/pipeline.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pipeline.rs b/src/pipeline.rs
index 70cf152..e10ee3b 100644
--- a/src/pipeline.rs
+++ b/src/pipeline.rs
@@ -336,7 +336,9 @@ impl Pipeline {
     }
 
     fn build_parser(&self, source: Box<dyn Read + Send>) -> Box<dyn ByteStream> {
-        let source = Box::new(RawStream::new(source, self.word_size, self.filler));
+        // the alignment is of the parsed stream; text must not be padded before parsing
+        let align = if self.in_format.is_binary() { self.word_size } else { 1 };
+        let source = Box::new(RawStream::new(source, align, self.filler));
         if self.in_format.is_binary() {
             source
         } else if self.in_format.is_gapless() {
-- 
2.43.0


From fd0194a05ec60f16d98c85b19d191dac3e99e266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 12/27] fix: end the zipped stream with the shortest input
 instead of buffering the rest of the longer ones

---
 src/byte/zip.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/byte/zip.rs b/src/byte/zip.rs
index 7befbfc..dac67a6 100644
--- a/src/byte/zip.rs
+++ b/src/byte/zip.rs
@@ -73,14 +73,18 @@ impl Zipper {
     fn fill_buf(&mut self, request: usize) -> Result<(bool, usize, usize)> {
         let request = (request + self.srcs.len() - 1) / self.srcs.len();
 
-        // bulk_len is the minimum valid slice length among the source buffers
-        let mut is_eof = true;
+        // len is the minimum valid slice length among the source buffers
+        // and the zipped stream ends at the tail of the shortest source
+        let mut shortest = usize::MAX;
         let mut len = usize::MAX;
         for src in &mut self.srcs {
             let (x, y) = src.fill_buf(request)?;
-            is_eof = is_eof && x;
+            if x {
+                shortest = std::cmp::min(shortest, y);
+            }
             len = std::cmp::min(len, y);
         }
+        let is_eof = shortest <= len;
 
         // teardown
         let len = (len / self.word_size) * self.word_size;
-- 
2.43.0


From 91dc644258d02460c8a7782ae2254bed732c70f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 13/27] fix: clip the last chunk of --walk at the end of the
 stream instead of dropping it

---
 src/segment/walk.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/segment/walk.rs b/src/segment/walk.rs
index 9c7724d..2461b25 100644
--- a/src/segment/walk.rs
+++ b/src/segment/walk.rs
@@ -164,7 +164,8 @@ impl SegmentStream for WalkSlicer {
 
         let (is_eof, bytes) = loop {
             let chunk_len = self.calc_next_chunk_len()?;
-            if self.pos + chunk_len > bytes {
+            // the last chunk is clipped at the end of the stream
+            if self.pos.saturating_add(chunk_len) > bytes && !is_eof {
                 break (is_eof, bytes);
             }
 
-- 
2.43.0


From 9161723211c45a5a2f0887f283b772010a152ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:59 +0000
Subject: [PATCH 14/27] fix: keep the sign when a unary plus is applied to a
 negated sum

---
 src/eval.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 27bd0ea..16bd60e 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -539,8 +539,8 @@ fn fuse_sign_op(s: char, op: char) -> char {
     match (s, op) {
         ('+', '+') => '+',
         ('+', '-') => '-',
-        ('+', '#') => '+',
-        ('+', '~') => '-',
+        ('+', '#') => '#',
+        ('+', '~') => '~',
         ('-', '+') => '#',
         ('-', '-') => '~',
         ('-', '#') => '+',
-- 
2.43.0


From 23ef8685da58670dd8db1a1e796d7897d4a1a697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:03 +0000
Subject: [PATCH 15/27] fix: match every source segment of --regex exactly
 once, and keep the matches sorted

---
 src/segment/regex.rs | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/segment/regex.rs b/src/segment/regex.rs
index b8afac7..eb717e2 100644
--- a/src/segment/regex.rs
+++ b/src/segment/regex.rs
@@ -8,8 +8,9 @@ use regex::bytes::{Match, Regex};
 
 pub struct RegexSlicer {
     src: Box<dyn SegmentStream>,
-    matches: Vec<Segment>,
-    scanned: usize,
+    matches: Vec<Segment>, // sorted; ones that may follow a match in the next chunk are behind `count`
+    count: usize,
+    src_scanned: usize, // #segments already matched
     re: Regex,
 }
 
@@ -21,7 +22,8 @@ impl RegexSlicer {
         Ok(RegexSlicer {
             src,
             matches,
-            scanned: 0,
+            count: 0,
+            src_scanned: 0,
             re,
         })
     }
@@ -39,27 +41,33 @@ impl SegmentStream for RegexSlicer {
         let (is_eof, bytes, count, max_consume) = self.src.fill_segment_buf()?;
 
         let (stream, segments) = self.src.as_slices();
-        for s in &segments[..count] {
-            if s.pos < self.scanned {
-                continue;
-            }
-
+        for s in &segments[self.src_scanned..count] {
             self.matches
                 .extend(self.re.find_iter(&stream[s.as_range()]).map(|x| to_segment(x, s.pos)));
         }
+        self.src_scanned = count;
 
-        self.scanned += bytes;
+        // the source segments may overlap each other
+        self.matches.sort_by_key(|x| (x.pos, x.len));
 
-        Ok((is_eof, bytes, self.matches.len(), max_consume))
+        self.count = if is_eof {
+            self.matches.len()
+        } else {
+            self.matches.partition_point(|x| x.pos < max_consume)
+        };
+
+        Ok((is_eof, bytes, self.count, max_consume))
     }
 
     fn as_slices(&self) -> (&[u8], &[Segment]) {
         let (stream, _) = self.src.as_slices();
-        (stream, &self.matches)
+        (stream, &self.matches[..self.count])
     }
 
     fn consume(&mut self, bytes: usize) -> Result<(usize, usize)> {
-        let (bytes, _) = self.src.consume(bytes)?;
+        let (bytes, src_count) = self.src.consume(bytes)?;
+        self.src_scanned -= src_count;
+
         if bytes == 0 {
             return Ok((0, 0));
         }
@@ -75,7 +83,7 @@ impl SegmentStream for RegexSlicer {
             m.pos -= bytes;
         }
 
-        self.scanned -= bytes;
+        self.count -= from;
 
         Ok((bytes, from))
     }
-- 
2.43.0


From 7429facfa5443c48545e1e2879da5e99c3d19e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:37 +0000
Subject: [PATCH 16/27] fix: don't report matches of --find that overlap the
 one before at block boundaries

---
 src/segment/exact.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/segment/exact.rs b/src/segment/exact.rs
index c6bbaca..461e15f 100644
--- a/src/segment/exact.rs
+++ b/src/segment/exact.rs
@@ -58,7 +58,13 @@ impl SegmentStream for ExactMatchSlicer {
             });
         }
 
-        self.scanned = if is_eof { bytes } else { bytes - self.pattern.len() + 1 };
+        // matches don't overlap each other even if the last one is near the end of the chunk
+        let last_tail = self.segments.last().map_or(0, |x| x.tail());
+        self.scanned = if is_eof {
+            bytes
+        } else {
+            std::cmp::max(bytes - self.pattern.len() + 1, last_tail)
+        };
         Ok((is_eof, bytes, self.segments.len(), self.scanned))
     }
 
-- 
2.43.0


From 1b71e1f86a712a0b60678821b951ecc823c736af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:31 +0000
Subject: [PATCH 17/27] fix: fill the buffer up to the requested length behind
 what is already consumed

---
 src/streambuf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/streambuf.rs b/src/streambuf.rs
index 401f28a..6d0d4a7 100644
--- a/src/streambuf.rs
+++ b/src/streambuf.rs
@@ -92,7 +92,7 @@ impl StreamBuf {
 
         // calculate target buffer length
         // debug_assert!(self.target_len > self.len);
-        let target_len = std::cmp::max(self.target_len, request);
+        let target_len = std::cmp::max(self.target_len, self.pos.saturating_add(request));
 
         // collect into the buffer without margin
         loop {
-- 
2.43.0


From 6602c052fa7e693a421dc86c6fb0d6a942846391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:04 +0000
Subject: [PATCH 18/27] fix: fill the concatenated stream up to the requested
 length

---
 src/byte/cat.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/byte/cat.rs b/src/byte/cat.rs
index 9b4e555..cef7df4 100644
--- a/src/byte/cat.rs
+++ b/src/byte/cat.rs
@@ -72,10 +72,11 @@ impl ByteStream for CatStream {
         }
 
         // try to extend at least one byte even if the cache already has enough bytes
-        let request = request.saturating_sub(self.cache.len());
-        let request = std::cmp::max(1, request);
+        let cached = self.cache.len();
+        let request = std::cmp::max(cached + 1, request);
 
-        let (is_eof, bytes) = self.srcs[self.i].fill_buf(request)?;
+        // the cache already has the first `dup` bytes of the source
+        let (is_eof, bytes) = self.srcs[self.i].fill_buf(request - (cached - self.dup))?;
         if is_eof || self.cache.len() > 0 {
             // path 1: the source remainder is not enough for the `request` so we try
             // the next source and accumulate them (including the one tried above)
-- 
2.43.0


From fc76202e985ba26f2dd1c9ffee3c7b826f2506e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:10 +0000
Subject: [PATCH 19/27] fix: pad with at least as many bytes as requested

---
 src/byte/zero.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/byte/zero.rs b/src/byte/zero.rs
index e82acba..e53abc7 100644
--- a/src/byte/zero.rs
+++ b/src/byte/zero.rs
@@ -30,14 +30,14 @@ impl ZeroStream {
 }
 
 impl ByteStream for ZeroStream {
-    fn fill_buf(&mut self, _: usize) -> Result<(bool, usize)> {
+    fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
         if self.offset >= self.len {
             self.next_len = 0;
             return Ok((true, 0));
         }
 
-        // TODO: we need this
-        // self.next_len = std::cmp::max(self.next_len, request);
+        let request = std::cmp::min(self.len - self.offset, request);
+        self.next_len = std::cmp::max(self.next_len, request);
         self.buf.resize(self.next_len + MARGIN_SIZE, self.filler);
 
         let is_eof = self.len <= self.offset + self.next_len;
-- 
2.43.0


From cf34cf5ab93d31506a539e4f8722f55a7246c9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:04 +0000
Subject: [PATCH 20/27] fix: read the source to its end when a filter needs
 what follows the last range of --slice

---
 src/pipeline.rs      |  3 ++-
 src/segment/range.rs | 13 +++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/pipeline.rs b/src/pipeline.rs
index e10ee3b..e1a8463 100644
--- a/src/pipeline.rs
+++ b/src/pipeline.rs
@@ -392,7 +392,8 @@ impl Pipeline {
                     (cache, NodeInstance::Segment(next))
                 }
                 (Slice(exprs), NodeInstance::Byte(prev)) => {
-                    let next = Box::new(RangeSlicer::new(prev, exprs)?);
+                    let beyond = self.nodes.iter().any(|x| matches!(x, Bridge(_) | Extend(_)));
+                    let next = Box::new(RangeSlicer::new(prev, exprs)?.read_through(beyond));
                     (cache, NodeInstance::Segment(next))
                 }
                 (Guide(file), NodeInstance::Byte(prev)) => {
diff --git a/src/segment/range.rs b/src/segment/range.rs
index d6f9325..de9e783 100644
--- a/src/segment/range.rs
+++ b/src/segment/range.rs
@@ -105,6 +105,7 @@ pub struct RangeSlicer {
     max_consume: usize,  // in #bytes
     segments: Vec<Segment>,
     cutter: Cutter,
+    read_through: bool, // continue to the end of the source after the last range
 }
 
 impl RangeSlicer {
@@ -115,8 +116,16 @@ impl RangeSlicer {
             max_consume: 0,
             segments: Vec::new(),
             cutter: Cutter::from_str(exprs)?,
+            read_through: false,
         })
     }
+
+    // by default the stream ends at the last range, without reading the rest of the source.
+    // segment filters that look at the bytes outside the segments need the actual end.
+    pub fn read_through(mut self, read_through: bool) -> Self {
+        self.read_through = read_through;
+        self
+    }
 }
 
 impl SegmentStream for RangeSlicer {
@@ -124,8 +133,8 @@ impl SegmentStream for RangeSlicer {
         let (is_eof, bytes) = self.src.fill_buf(BLOCK_SIZE)?;
         let max_consume = self.cutter.accumulate(self.src_consumed, is_eof, bytes, &mut self.segments)?;
 
-        let (is_eof, bytes, max_consume) = if self.cutter.is_empty() {
-            let bytes = self.segments.last().map_or(self.max_consume, |x| x.tail());
+        let (is_eof, bytes, max_consume) = if !is_eof && !self.read_through && self.cutter.is_empty() {
+            let bytes = self.segments.iter().map(|x| x.tail()).max().unwrap_or(self.max_consume);
             let max_consume = std::cmp::min(bytes, max_consume);
             (true, bytes, max_consume)
         } else {
-- 
2.43.0


From 8777186b52266f0647205886d6f2a79c6e905b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:16 +0000
Subject: [PATCH 21/27] fix: --extend holds slices back until the stream
 reaches their ends

---
 src/segment/extend.rs | 67 +++++++++++++++++++++----------------------
 1 file changed, 32 insertions(+), 35 deletions(-)

diff --git a/src/segment/extend.rs b/src/segment/extend.rs
index d883212..34735e4 100644
--- a/src/segment/extend.rs
+++ b/src/segment/extend.rs
@@ -4,32 +4,14 @@
 use super::{Segment, SegmentStream};
 use crate::mapper::SegmentMapper;
 use anyhow::{anyhow, Result};
-use std::cmp::Reverse;
-use std::collections::BinaryHeap;
-
-#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Copy, Clone)]
-struct SorterElement {
-    pos: usize,
-    len: usize,
-    original_end: usize,
-}
-
-impl From<SorterElement> for Segment {
-    fn from(elem: SorterElement) -> Segment {
-        Segment {
-            pos: elem.pos,
-            len: elem.len,
-        }
-    }
-}
 
 pub struct ExtendStream {
     src: Box<dyn SegmentStream>,
     segments: Vec<Segment>,
 
-    // sorter; needed to reorder the segments when the start positions of the mapped
-    // segments are derived from the end positions of the source segments
-    sorter: BinaryHeap<Reverse<SorterElement>>,
+    // #segments exposed to the downstream; the rest is held until the stream reaches their
+    // tails, and until no segment that comes later can precede them
+    count: usize,
 
     // #segments that are not consumed in the source but already accumulated to `acc`
     // note: not the count from the beginning of the source stream
@@ -56,7 +38,7 @@ impl ExtendStream {
         Ok(ExtendStream {
             src,
             segments: Vec::new(),
-            sorter: BinaryHeap::new(),
+            count: 0,
             src_scanned: 0,
             max_consume: 0,
             mappers,
@@ -85,7 +67,7 @@ impl ExtendStream {
     fn extend_segment_buf(&mut self, is_eof: bool, count: usize, bytes: usize) {
         let tail = if is_eof { bytes } else { usize::MAX };
 
-        let map_segment = |m: &SegmentMapper, segment: &Segment| -> Option<SorterElement> {
+        let map_segment = |m: &SegmentMapper, segment: &Segment| -> Option<Segment> {
             let s = [segment.pos as isize, segment.tail() as isize];
             let (start, end) = m.evaluate(&s, &s);
 
@@ -94,10 +76,9 @@ impl ExtendStream {
 
             // record the segment
             if start < end {
-                Some(SorterElement {
+                Some(Segment {
                     pos: start,
                     len: end - start,
-                    original_end: segment.tail(),
                 })
             } else {
                 None
@@ -111,7 +92,7 @@ impl ExtendStream {
         for next in &segments[self.src_scanned..count] {
             for mapper in &self.mappers {
                 if let Some(s) = map_segment(mapper, next) {
-                    self.sorter.push(Reverse(s));
+                    self.segments.push(s);
                 }
             }
         }
@@ -119,13 +100,27 @@ impl ExtendStream {
         // all source segments are mapped; save the source-scanning states
         self.src_scanned = count;
 
-        // then sort the mapped segments into `self.segments` array
-        let tail = if is_eof { usize::MAX } else { bytes };
-        while let Some(&Reverse(s)) = self.sorter.peek() {
-            debug_assert!(s.original_end <= tail);
+        // then sort the mapped segments; needed to reorder the segments when the start positions
+        // of the mapped segments are derived from the end positions of the source segments
+        self.segments.sort_by_key(|x| (x.pos, x.len));
+    }
+
+    fn update_count(&mut self, is_eof: bool, bytes: usize) {
+        if is_eof {
+            // those mapped before the end was found are not clipped yet
+            self.segments.retain(|x| x.pos < bytes);
+            for s in &mut self.segments {
+                s.len = std::cmp::min(s.len, bytes - s.pos);
+            }
+            self.count = self.segments.len();
+            return;
+        }
 
-            let s = self.sorter.pop().unwrap().0;
-            self.segments.push(s.into());
+        let max_consume = self.max_consume;
+        let is_held = |x: &Segment| x.tail() > bytes || x.pos >= max_consume;
+        self.count = self.segments.iter().position(is_held).unwrap_or(self.segments.len());
+        if let Some(s) = self.segments.get(self.count) {
+            self.max_consume = std::cmp::min(self.max_consume, s.pos);
         }
     }
 }
@@ -137,14 +132,15 @@ impl SegmentStream for ExtendStream {
 
         // update max_consume
         self.update_max_consume(is_eof, bytes, max_consume);
-        let max_consume = std::cmp::min(max_consume, self.max_consume);
+        self.max_consume = std::cmp::min(max_consume, self.max_consume);
+        self.update_count(is_eof, bytes);
 
-        Ok((is_eof, bytes, self.segments.len(), max_consume))
+        Ok((is_eof, bytes, self.count, self.max_consume))
     }
 
     fn as_slices(&self) -> (&[u8], &[Segment]) {
         let (stream, _) = self.src.as_slices();
-        (stream, &self.segments)
+        (stream, &self.segments[..self.count])
     }
 
     fn consume(&mut self, bytes: usize) -> Result<(usize, usize)> {
@@ -161,6 +157,7 @@ impl SegmentStream for ExtendStream {
         for s in &mut self.segments {
             s.pos -= bytes;
         }
+        self.count -= from;
         self.max_consume -= bytes;
 
         Ok((bytes, from))
-- 
2.43.0


From b20fffd64bb9ffde57c6849013007d0b4d1ad6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:16 +0000
Subject: [PATCH 22/27] fix: --invert holds slices back until the stream
 reaches their ends, and sorts them

---
 src/segment/bridge.rs | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/segment/bridge.rs b/src/segment/bridge.rs
index 58b0232..1486c59 100644
--- a/src/segment/bridge.rs
+++ b/src/segment/bridge.rs
@@ -9,6 +9,10 @@ pub struct BridgeStream {
     src: Box<dyn SegmentStream>,
     segments: Vec<Segment>,
 
+    // #segments exposed to the downstream; the rest is held until the stream reaches their
+    // tails, and until no segment that comes later can precede them
+    count: usize,
+
     // #segments that are not consumed in the source but already accumulated to `acc`
     // note: not the count from the beginning of the source stream
     src_scanned: usize,
@@ -37,6 +41,7 @@ impl BridgeStream {
         Ok(BridgeStream {
             src,
             segments: Vec::new(),
+            count: 0,
             src_scanned: 0,
             last_end: 0,
             max_consume: 0,
@@ -121,6 +126,28 @@ impl BridgeStream {
         // all source segments are mapped; save the source-scanning states
         self.last_end = prev_end;
         self.src_scanned = count;
+
+        // then sort the mapped segments; the mappers don't always keep the order of the gaps
+        self.segments.sort_by_key(|x| (x.pos, x.len));
+    }
+
+    fn update_count(&mut self, is_eof: bool, bytes: usize) {
+        if is_eof {
+            // those mapped before the end was found are not clipped yet
+            self.segments.retain(|x| x.pos < bytes);
+            for s in &mut self.segments {
+                s.len = std::cmp::min(s.len, bytes - s.pos);
+            }
+            self.count = self.segments.len();
+            return;
+        }
+
+        let max_consume = self.max_consume;
+        let is_held = |x: &Segment| x.tail() > bytes || x.pos >= max_consume;
+        self.count = self.segments.iter().position(is_held).unwrap_or(self.segments.len());
+        if let Some(s) = self.segments.get(self.count) {
+            self.max_consume = std::cmp::min(self.max_consume, s.pos);
+        }
     }
 }
 
@@ -131,14 +158,15 @@ impl SegmentStream for BridgeStream {
 
         // update max_consume
         self.update_max_consume(is_eof, bytes);
-        let max_consume = std::cmp::min(max_consume, self.max_consume);
+        self.max_consume = std::cmp::min(max_consume, self.max_consume);
+        self.update_count(is_eof, bytes);
 
-        Ok((is_eof, bytes, self.segments.len(), max_consume))
+        Ok((is_eof, bytes, self.count, self.max_consume))
     }
 
     fn as_slices(&self) -> (&[u8], &[Segment]) {
         let (stream, _) = self.src.as_slices();
-        (stream, &self.segments)
+        (stream, &self.segments[..self.count])
     }
 
     fn consume(&mut self, bytes: usize) -> Result<(usize, usize)> {
@@ -155,6 +183,7 @@ impl SegmentStream for BridgeStream {
         for s in &mut self.segments {
             s.pos -= bytes;
         }
+        self.count -= from;
         self.last_end -= bytes as isize;
         self.max_consume -= bytes;
 
-- 
2.43.0


From 7b168edfd08d4f33bdc81a7010b34f17af3079e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:37 +0000
Subject: [PATCH 23/27] fix: --width held back too few slices, or more than it
 had, after the stream was consumed in part

---
 src/segment/stride.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/segment/stride.rs b/src/segment/stride.rs
index f41f0d4..427da8f 100644
--- a/src/segment/stride.rs
+++ b/src/segment/stride.rs
@@ -319,8 +319,9 @@ impl ConstSegments {
             return self.update_lend_state(next_tail, len, self.segments.len());
         }
 
-        let n_extra = self.count_segments(next_tail.saturating_sub(len + self.pitch));
-        // let n_extra = std::cmp::min(self.segments.len(), n_extra);
+        // hold the segments that are too close to the tail of the buffer
+        let n_extra = self.count_segments(next_tail + self.tail_reserved_bytes - (len + self.pitch));
+        let n_extra = std::cmp::min(self.segments.len(), n_extra);
 
         let next_tail = next_tail - n_extra * self.pitch;
         let count = self.segments.len() - n_extra;
-- 
2.43.0


From fdbaf3c9dabc5a91d53206b433b9a5253a92205b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:30 +0000
Subject: [PATCH 24/27] fix: --lines dropped slices that equal another one, and
 reordered them, at the end of the stream

---
 src/segment/filter.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/segment/filter.rs b/src/segment/filter.rs
index 7c7ddae..d50cc4f 100644
--- a/src/segment/filter.rs
+++ b/src/segment/filter.rs
@@ -101,11 +101,6 @@ impl Cutter {
             }
         }
 
-        if is_eof {
-            v.sort_by_key(|x| (x.pos, x.len));
-            v.dedup();
-        }
-
         let scanned = std::cmp::max(scan_upto, scanned);
         Ok(scanned)
     }
-- 
2.43.0


From 6b767b885f78582ad8d92d05094c51715fa02afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:26 +0000
Subject: [PATCH 25/27] fix: a text record that is longer than a block lost or
 misread the byte the block ends in

---
 src/text/parser/mod.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/text/parser/mod.rs b/src/text/parser/mod.rs
index fa787cb..a56b1b9 100644
--- a/src/text/parser/mod.rs
+++ b/src/text/parser/mod.rs
@@ -390,7 +390,7 @@ impl TextParser {
         Some((fwd1 + fwd2 + 1, offset as usize, span as usize))
     }
 
-    fn read_body(&self, stream: &[u8], len: usize, is_in_tail: bool, buf: &mut Vec<u8>) -> Option<(usize, bool, bool, bool)> {
+    fn read_body(&self, stream: &[u8], is_eof: bool, len: usize, is_in_tail: bool, buf: &mut Vec<u8>) -> Option<(usize, bool, bool, bool)> {
         debug_assert!(stream.len() >= len + MARGIN_SIZE);
 
         let mut stream = stream;
@@ -420,12 +420,12 @@ impl TextParser {
             let ret = buf.fill_uninit_on_option_with_ret(4 * 16, |arr| (self.parse_body)(is_in_tail, stream, arr))?;
             let (scanned, parsed) = ret.0;
 
-            if parsed > rem_len {
+            // the last column continues in the next block; leave it there
+            if parsed > rem_len || (!is_eof && parsed == rem_len && rem_len % 3 > 0) {
                 debug_assert!(!is_in_tail);
-                let total = (len + parsed - rem_len) / 3;
-                let keep = len / 3;
-                buf.truncate(buf.len() + keep - total);
-                return Some((keep * 3, false, false, true));
+                let drop = ret.1.saturating_sub(rem_len / 3);
+                buf.truncate(buf.len() - drop);
+                return Some((len - rem_len % 3, false, false, true));
             }
 
             debug_assert!(!is_in_tail || parsed == 0);
@@ -447,7 +447,7 @@ impl TextParser {
         let mut is_in_tail = is_in_tail;
         while rem_len > 0 {
             let (fwd, delim_found, eol_found, refeed) = self
-                .read_body(stream, rem_len, is_in_tail, buf)
+                .read_body(stream, is_eof, rem_len, is_in_tail, buf)
                 .with_context(|| format!("failed to parse array at {}", &self.cache.format(false)))?;
             rem_len -= fwd;
             is_in_tail = delim_found;
@@ -508,7 +508,7 @@ impl TextParser {
         let mut is_in_tail = false;
         while rem_len > 0 {
             let (fwd, delim_found, eol_found, refeed) = self
-                .read_body(stream, rem_len, is_in_tail, buf)
+                .read_body(stream, is_eof, rem_len, is_in_tail, buf)
                 .with_context(|| format!("failed to parse array at {}", &self.cache.format(false)))?;
 
             rem_len -= fwd;
-- 
2.43.0


From 7a75f04082da9a43bacac58b1b48e85d535dd8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:48 +0000
Subject: [PATCH 26/27] fix: the AVX2 reader of records took a column that is
 not followed by a blank for valid

---
 src/text/parser/x86_64.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/text/parser/x86_64.rs b/src/text/parser/x86_64.rs
index 253a2e8..6d690db 100644
--- a/src/text/parser/x86_64.rs
+++ b/src/text/parser/x86_64.rs
@@ -84,8 +84,9 @@ pub fn parse_hex_single_avx2(src: &[u8]) -> Option<(u64, usize)> {
     unsafe { parse_hex_single_impl(_mm_loadu_si128(src.as_ptr() as *const __m128i)) }
 }
 
-unsafe fn parse_multi(x0: __m128i, x1: __m128i, x2: __m128i, x3: __m128i, elems: usize, v: &mut [u8]) -> Option<usize> {
-    debug_assert!(elems <= 16);
+unsafe fn parse_multi(x0: __m128i, x1: __m128i, x2: __m128i, x3: __m128i, parse_len: usize, v: &mut [u8]) -> Option<usize> {
+    debug_assert!(parse_len <= 48);
+    let elems = (parse_len + 1) / 3;
 
     // gather every three elements
     let index_0 = [0u8, 3, 6, 9, 1, 4, 7, 10, 2, 5, 8, 11, 0x80, 0x80, 0x80, 0x80];
@@ -115,7 +116,7 @@ unsafe fn parse_multi(x0: __m128i, x1: __m128i, x2: __m128i, x3: __m128i, elems:
     // "00 " ok
     let is_space = _mm_cmpeq_epi8(s, _mm_set1_epi8(b' ' as i8));
     let is_space = _mm_movemask_epi8(is_space) as u64;
-    let is_space = (is_space << 1) | 1;
+    let is_space = is_space | 0u64.wrapping_sub(1 << (parse_len / 3)); // the last column may have no space after it
 
     let is_null = sh & sl;
     let is_valid = vh & vl;
@@ -170,7 +171,7 @@ pub fn parse_hex_body_avx2(is_in_tail: bool, src: &[u8], dst: &mut [u8]) -> Opti
 
             let parse_len = parse_len.min(scan_len);
             parsed += parse_len;
-            n_elems += parse_multi(x0, x1, x2, x3, (parse_len + 1) / 3, &mut dst[n_elems..])?;
+            n_elems += parse_multi(x0, x1, x2, x3, parse_len, &mut dst[n_elems..])?;
 
             if scan_len < 48 {
                 break;
-- 
2.43.0


From 747001b0e8e64d6baef16ac690f9dd9a31408991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:13 +0000
Subject: [PATCH 27/27] fix: the AVX2 reader of records took columns of ':' for
 blank ones

---
 src/text/parser/x86_64.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/text/parser/x86_64.rs b/src/text/parser/x86_64.rs
index 6d690db..3416839 100644
--- a/src/text/parser/x86_64.rs
+++ b/src/text/parser/x86_64.rs
@@ -106,19 +106,21 @@ unsafe fn parse_multi(x0: __m128i, x1: __m128i, x2: __m128i, x3: __m128i, parse_
     let x23h = _mm_unpackhi_epi32(x2, x3);
     let s = _mm_unpacklo_epi64(x01h, x23h);
 
-    let (xh, vh, sh) = to_hex(l);
-    let (xl, vl, sl) = to_hex(h);
+    let (xh, vh, _) = to_hex(l);
+    let (xl, vl, _) = to_hex(h);
 
     // validation; we allow double-space columns (null)
     // "   " ok
     // "0  " ng
     // " 0 " ng
     // "00 " ok
-    let is_space = _mm_cmpeq_epi8(s, _mm_set1_epi8(b' ' as i8));
+    let blank = _mm_set1_epi8(b' ' as i8);
+    let is_space = _mm_cmpeq_epi8(s, blank);
     let is_space = _mm_movemask_epi8(is_space) as u64;
     let is_space = is_space | 0u64.wrapping_sub(1 << (parse_len / 3)); // the last column may have no space after it
 
-    let is_null = sh & sl;
+    let is_null = _mm_and_si128(_mm_cmpeq_epi8(l, blank), _mm_cmpeq_epi8(h, blank));
+    let is_null = _mm_movemask_epi8(is_null) as u64;
     let is_valid = vh & vl;
 
     let mask = 0u64.wrapping_sub(1 << elems);
-- 
2.43.0

