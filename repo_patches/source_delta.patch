From 71fb28f8d2b893f8a3506773bd91c30a64e46652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:25 +0000
Subject: [PATCH 01/27] fix: MemoryStorage reads past the written data panic or
 return unwritten bytes

Track the end of the written data instead of the total number of bytes
written, so a read never exposes the pre-allocated part of the buffer, and
a position past the end reads as end of file instead of panicking.
---
 crates/stream-download/src/storage/memory.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/stream-download/src/storage/memory.rs b/crates/stream-download/src/storage/memory.rs
index 09aa7f3..cc43411 100644
--- a/crates/stream-download/src/storage/memory.rs
+++ b/crates/stream-download/src/storage/memory.rs
@@ -60,9 +60,13 @@ impl Read for MemoryStorage {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         let inner = self.inner.read();
 
-        let available_len =
-            (inner.len().saturating_sub(self.position)).min(self.written.load(Ordering::SeqCst));
+        // The buffer may be pre-allocated, so only the part that has been written to is available
+        let written_len = inner.len().min(self.written.load(Ordering::SeqCst));
+        let available_len = written_len.saturating_sub(self.position);
         let read_len = available_len.min(buf.len());
+        if read_len == 0 {
+            return Ok(0);
+        }
         buf[..read_len].copy_from_slice(&inner[self.position..self.position + read_len]);
         self.position += read_len;
         Ok(read_len)
@@ -85,6 +89,9 @@ impl Seek for MemoryStorage {
 
 impl Write for MemoryStorage {
     fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
+        if buf.is_empty() {
+            return Ok(0);
+        }
         let mut inner = self.inner.write();
 
         if self.position + buf.len() > inner.len() {
@@ -94,7 +101,7 @@ impl Write for MemoryStorage {
         inner[self.position..self.position + buf.len()].copy_from_slice(buf);
 
         self.position += buf.len();
-        self.written.fetch_add(buf.len(), Ordering::SeqCst);
+        self.written.fetch_max(self.position, Ordering::SeqCst);
         Ok(buf.len())
     }
 
-- 
2.43.0


From 8d4b398661ef7bc99f97795fac93f4258be84502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:25 +0000
Subject: [PATCH 02/27] fix: TempStorageReader returns stale bytes for sections
 filled in later

The reader buffered file contents ahead of its position, so data written
after the buffer was filled was never seen.
---
 crates/stream-download/src/storage/temp.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/stream-download/src/storage/temp.rs b/crates/stream-download/src/storage/temp.rs
index 8e724ec..3695792 100644
--- a/crates/stream-download/src/storage/temp.rs
+++ b/crates/stream-download/src/storage/temp.rs
@@ -5,7 +5,7 @@
 use std::ffi::OsString;
 use std::fmt::Debug;
 use std::fs::File;
-use std::io::{self, BufReader, Read, Seek};
+use std::io::{self, Read, Seek};
 use std::path::PathBuf;
 use std::sync::Arc;
 
@@ -125,7 +125,7 @@ impl StorageProvider for TempStorageProvider {
 
         let handle = tempfile.reopen().wrap_err("error reopening temp file")?;
         let reader = TempStorageReader {
-            reader: BufReader::new(tempfile),
+            reader: tempfile,
         };
         let writer = handle
             .try_clone()
@@ -137,7 +137,9 @@ impl StorageProvider for TempStorageProvider {
 /// Reader created by a [`TempStorageProvider`]. Reads from a temporary file.
 #[derive(Debug)]
 pub struct TempStorageReader {
-    reader: BufReader<NamedTempFile>,
+    // This must not be buffered: the contents of the file may change after they've been read into
+    // a buffer if the writer fills in a section that was skipped previously.
+    reader: NamedTempFile,
 }
 
 impl Read for TempStorageReader {
-- 
2.43.0


From 4eca72371b7cfeba05205de02c2f59447210afac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:53 +0000
Subject: [PATCH 03/27] fix: BoundedStorage seeks panic when moving back across
 skipped positions

The read/written counters underflowed after a forward seek followed by a
backward one, and a forward seek made them disagree with the positions so
reads ended early. The positions already hold everything that's needed.
---
 crates/stream-download/src/storage/bounded.rs | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/crates/stream-download/src/storage/bounded.rs b/crates/stream-download/src/storage/bounded.rs
index 9ee8035..457afe9 100644
--- a/crates/stream-download/src/storage/bounded.rs
+++ b/crates/stream-download/src/storage/bounded.rs
@@ -90,8 +90,6 @@ where
             ))?;
 
         let shared_info = Arc::new(AssertUnwindSafe(Mutex::new(SharedInfo {
-            read: 0,
-            written: 0,
             read_position: 0,
             write_position: 0,
             size: buffer_size,
@@ -110,8 +108,6 @@ where
 
 #[derive(Debug)]
 struct SharedInfo {
-    read: usize,
-    written: usize,
     read_position: usize,
     write_position: usize,
     size: usize,
@@ -172,8 +168,8 @@ where
             ));
         }
 
-        if shared_info.read >= shared_info.written {
-            debug!("read bytes >= written bytes, ending read");
+        if available_len == 0 {
+            debug!("read position >= write position, ending read");
             return Ok(0);
         }
 
@@ -195,7 +191,6 @@ where
             end,
             size,
             buf_len = buf.len(),
-            read = shared_info.read,
             "bounded read"
         );
 
@@ -224,7 +219,6 @@ where
 
         let buf_len = buf.len();
         shared_info.read_position += buf_len;
-        shared_info.read += buf_len;
 
         Ok(buf_len)
     }
@@ -239,10 +233,6 @@ where
         trace!("reader seek");
         let mut shared_info = self.shared_info.lock();
         let new_position = handle_seek(position, shared_info.read_position)?;
-        // If we performed a backwards seek,we need to adjust the absolute read position.
-        // Otherwise, if we've moved the read position back, but keep incrementing the
-        // read counter, it may look like we've read more bytes than we've written.
-        shared_info.read -= shared_info.read_position.saturating_sub(new_position);
         shared_info.read_position = new_position;
         Ok(new_position as u64)
     }
@@ -296,7 +286,6 @@ where
             start,
             end,
             buf_len = buf.len(),
-            written = shared_info.written,
             "bounded write"
         );
 
@@ -322,7 +311,6 @@ where
 
         let buf_len = buf.len();
         shared_info.write_position += buf_len;
-        shared_info.written += buf_len;
 
         self.inner.flush().wrap_err("error flushing during write")?;
 
@@ -343,7 +331,6 @@ where
         trace!("writer seek");
         let mut shared_info = self.shared_info.lock();
         let new_position = handle_seek(position, shared_info.write_position)?;
-        shared_info.written -= shared_info.write_position.saturating_sub(new_position);
         shared_info.write_position = new_position;
         Ok(new_position as u64)
     }
-- 
2.43.0


From 4928d0ad0ccd57b17b29fbe1f863a6b680fc07f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 04/27] fix: seeking to a negative or overflowing position is
 not rejected

Return InvalidInput as std does, instead of wrapping around to a huge
position (and clamping it to the end or panicking on the next read).
---
 crates/stream-download/src/lib.rs             | 15 ++++++++++++---
 crates/stream-download/src/storage/bounded.rs |  6 ++++--
 crates/stream-download/src/storage/memory.rs  |  8 +++++---
 3 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index 278dff4..28d73a3 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -432,12 +432,12 @@ impl<P: StorageProvider> StreamDownload<P> {
             }
             SeekFrom::Current(position) => {
                 debug!(seek_position = position, "seeking from current position");
-                (self.output_reader.stream_position()? as i64 + position) as u64
+                add_seek_offset(self.output_reader.stream_position()?, position)?
             }
             SeekFrom::End(position) => {
                 debug!(seek_position = position, "seeking from end");
                 if let Some(length) = self.handle.content_length() {
-                    (length as i64 + position) as u64
+                    add_seek_offset(length, position)?
                 } else {
                     return Err(io::Error::new(
                         io::ErrorKind::Unsupported,
@@ -554,7 +554,7 @@ impl<P: StorageProvider> Read for StreamDownload<P> {
         trace!(buffer_length = buf.len(), "read requested");
         let stream_position = self.output_reader.stream_position()?;
         let requested_position =
-            self.normalize_requested_position(stream_position + buf.len() as u64);
+            self.normalize_requested_position(stream_position.saturating_add(buf.len() as u64));
         trace!(
             current_position = stream_position,
             requested_position = requested_position
@@ -621,6 +621,15 @@ impl<P: StorageProvider> Seek for StreamDownload<P> {
     }
 }
 
+pub(crate) fn add_seek_offset(position: u64, offset: i64) -> io::Result<u64> {
+    position.checked_add_signed(offset).ok_or_else(|| {
+        io::Error::new(
+            io::ErrorKind::InvalidInput,
+            "invalid seek to a negative or overflowing position",
+        )
+    })
+}
+
 pub(crate) trait WrapIoResult {
     fn wrap_err(self, msg: &str) -> Self;
 }
diff --git a/crates/stream-download/src/storage/bounded.rs b/crates/stream-download/src/storage/bounded.rs
index 457afe9..2a5e898 100644
--- a/crates/stream-download/src/storage/bounded.rs
+++ b/crates/stream-download/src/storage/bounded.rs
@@ -29,7 +29,7 @@ use parking_lot::Mutex;
 use tracing::{debug, instrument, trace, warn};
 
 use super::{StorageProvider, StorageReader, StorageWriter};
-use crate::WrapIoResult;
+use crate::{WrapIoResult, add_seek_offset};
 
 /// Creates a [`BoundedStorageReader`] with a fixed size.
 #[derive(Clone, Debug)]
@@ -241,7 +241,9 @@ where
 fn handle_seek(position: SeekFrom, current_position: usize) -> io::Result<usize> {
     match position {
         SeekFrom::Start(position) => Ok(position as usize),
-        SeekFrom::Current(from_current) => Ok((current_position as i64 + from_current) as usize),
+        SeekFrom::Current(from_current) => {
+            add_seek_offset(current_position as u64, from_current).map(|p| p as usize)
+        }
         SeekFrom::End(_) => Err(io::Error::new(
             io::ErrorKind::Unsupported,
             "seek from end not supported",
diff --git a/crates/stream-download/src/storage/memory.rs b/crates/stream-download/src/storage/memory.rs
index cc43411..c40617f 100644
--- a/crates/stream-download/src/storage/memory.rs
+++ b/crates/stream-download/src/storage/memory.rs
@@ -10,7 +10,7 @@ use std::sync::atomic::{AtomicUsize, Ordering};
 use parking_lot::RwLock;
 
 use super::StorageProvider;
-use crate::WrapIoResult;
+use crate::{WrapIoResult, add_seek_offset};
 
 /// Creates a [`MemoryStorage`] with an initial size based on the supplied content length.
 #[derive(Default, Clone, Debug)]
@@ -78,8 +78,10 @@ impl Seek for MemoryStorage {
         let len = self.inner.read().len();
         let new_position = match position {
             SeekFrom::Start(position) => position as usize,
-            SeekFrom::Current(from_current) => (self.position as i64 + from_current) as usize,
-            SeekFrom::End(from_end) => (len as i64 + from_end) as usize,
+            SeekFrom::Current(from_current) => {
+                add_seek_offset(self.position as u64, from_current)? as usize
+            }
+            SeekFrom::End(from_end) => add_seek_offset(len as u64, from_end)? as usize,
         };
 
         self.position = new_position;
-- 
2.43.0


From 4b8ebd85156924c1931792ba7cd89dd483e3b9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 05/27] fix: reads return bytes that haven't been downloaded or
 miss wakeups

A reader trusted any notification from the download task, which only meant
that the task was somewhere past the requested position: after a seek into
a gap, or with a notification left over from an earlier request, the read
returned whatever the storage held there. A reader could also miss the
notification entirely if the task passed the position right before the
request was published, when a prefetch completed, or when a gap was closed.

Readers now wait until the downloaded ranges cover the request and never
read past them.
---
 crates/stream-download/src/lib.rs           | 28 +++++++++--
 crates/stream-download/src/source/handle.rs | 51 ++++++++++++++++++---
 crates/stream-download/src/source/mod.rs    | 42 +++++++++++------
 3 files changed, 99 insertions(+), 22 deletions(-)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index 28d73a3..a27b608 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -448,6 +448,24 @@ impl<P: StorageProvider> StreamDownload<P> {
         })
     }
 
+    /// Reads only the part that's been downloaded. The storage may return anything for positions
+    /// that haven't been written to.
+    fn handle_available_read(&mut self, position: u64, buf: &mut [u8]) -> io::Result<usize> {
+        let Some(available) = self.handle.get_downloaded_at_position(position) else {
+            return if self.handle.has_data_after(position) {
+                Err(io::Error::new(
+                    io::ErrorKind::UnexpectedEof,
+                    format!("position {position} was not downloaded"),
+                ))
+            } else {
+                Ok(0)
+            };
+        };
+        let available_len = usize::try_from(available.end - position).unwrap_or(usize::MAX);
+        let read_len = buf.len().min(available_len);
+        self.handle_read(&mut buf[..read_len])
+    }
+
     fn handle_read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         let res = self.output_reader.read(buf).inspect(|l| {
             trace!(read_length = format!("{l:?}"), "returning read");
@@ -550,6 +568,9 @@ impl<P: StorageProvider> Read for StreamDownload<P> {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         self.check_for_failure()?;
         self.check_for_excessive_read(buf.len())?;
+        if buf.is_empty() {
+            return Ok(0);
+        }
 
         trace!(buffer_length = buf.len(), "read requested");
         let stream_position = self.output_reader.stream_position()?;
@@ -567,14 +588,15 @@ impl<P: StorageProvider> Read for StreamDownload<P> {
             );
             if closest_set.end >= requested_position {
                 trace!("requested position already downloaded");
-                return self.handle_read(buf);
+                return self.handle_available_read(stream_position, buf);
             }
             debug!("requested position not yet downloaded");
         } else {
             debug!("stream position not yet downloaded");
         }
 
-        self.handle.wait_for_position(requested_position);
+        self.handle
+            .wait_for_position(stream_position, requested_position);
         self.check_for_failure()?;
         debug!(
             current_position = stream_position,
@@ -583,7 +605,7 @@ impl<P: StorageProvider> Read for StreamDownload<P> {
             "reached requested position"
         );
 
-        self.handle_read(buf)
+        self.handle_available_read(stream_position, buf)
     }
 }
 
diff --git a/crates/stream-download/src/source/handle.rs b/crates/stream-download/src/source/handle.rs
index 8bdb92b..2162de9 100644
--- a/crates/stream-download/src/source/handle.rs
+++ b/crates/stream-download/src/source/handle.rs
@@ -2,7 +2,7 @@ use std::fmt::Debug;
 use std::ops::Range;
 use std::panic::AssertUnwindSafe;
 use std::sync::Arc;
-use std::sync::atomic::{AtomicBool, AtomicI64, Ordering};
+use std::sync::atomic::{AtomicBool, AtomicI64, Ordering, fence};
 use std::time::Instant;
 
 use parking_lot::{Condvar, Mutex, RwLock};
@@ -27,16 +27,29 @@ impl SourceHandle {
         self.downloaded.get(position)
     }
 
-    pub(crate) fn wait_for_position(&self, requested_position: u64) {
+    /// Returns true if there is any downloaded data after the given position.
+    pub(crate) fn has_data_after(&self, position: u64) -> bool {
+        self.downloaded.has_data_after(position)
+    }
+
+    /// Waits until everything in `position..requested_position` is downloaded or no more data will
+    /// be downloaded.
+    pub(crate) fn wait_for_position(&self, position: u64, requested_position: u64) {
         self.request_position(requested_position);
         debug!(
             requested_position = requested_position,
             "waiting for requested position"
         );
         self.notify_read.notify_waiting();
-        self.position_reached.wait_for_position_reached();
+        self.wait_until(requested_position, || {
+            self.downloaded
+                .get(position)
+                .is_some_and(|range| range.end >= requested_position)
+        });
     }
 
+    /// Requests a seek and waits until there is data available at the given position or no more
+    /// data will be downloaded.
     pub(crate) fn seek(&self, seek_position: u64) {
         self.request_position(seek_position);
         self.request_seek(seek_position);
@@ -44,7 +57,22 @@ impl SourceHandle {
             requested_position = seek_position,
             "waiting for requested position"
         );
-        self.position_reached.wait_for_position_reached();
+        self.wait_until(seek_position, || {
+            self.downloaded.get(seek_position).is_some()
+        });
+    }
+
+    fn wait_until(&self, requested_position: u64, is_ready: impl Fn() -> bool) {
+        loop {
+            // Check again now that the request is visible to the download task. It may have
+            // passed the position before the request was made, in which case it won't notify us.
+            if is_ready() || self.position_reached.wait_for_position_reached() {
+                return;
+            }
+            // The notification may be for an earlier request or for a position that was reached
+            // in another part of the stream, so we may need to keep waiting.
+            self.request_position(requested_position);
+        }
     }
 
     pub(crate) fn notify_read(&self) {
@@ -92,12 +120,17 @@ impl RequestedPosition {
     }
 
     pub(super) fn get(&self) -> Option<u64> {
+        // pairs with the fence in `set`
+        fence(Ordering::SeqCst);
         let val = self.0.load(Ordering::Relaxed);
         if val == -1 { None } else { Some(val as u64) }
     }
 
     fn set(&self, position: u64) {
         self.0.store(position as i64, Ordering::Relaxed);
+        // Either the download task sees this request after it updates the downloaded ranges, or we
+        // see the updated ranges.
+        fence(Ordering::SeqCst);
     }
 }
 
@@ -127,11 +160,12 @@ impl PositionReached {
         cvar.notify_all();
     }
 
-    fn wait_for_position_reached(&self) {
+    /// Returns true if the stream is done, meaning there will be no more notifications.
+    fn wait_for_position_reached(&self) -> bool {
         let (mutex, cvar) = self.0.as_ref();
         let mut waiter = mutex.lock();
         if waiter.stream_done {
-            return;
+            return true;
         }
 
         let wait_start = Instant::now();
@@ -146,6 +180,7 @@ impl PositionReached {
         if !waiter.stream_done {
             waiter.position_reached = false;
         }
+        waiter.stream_done
     }
 }
 
@@ -164,6 +199,10 @@ impl Downloaded {
         self.0.read().get(&position).cloned()
     }
 
+    fn has_data_after(&self, position: u64) -> bool {
+        self.0.read().last().is_some_and(|last| last.end > position)
+    }
+
     pub(super) fn next_gap(&self, range: Range<u64>) -> Option<Range<u64>> {
         self.0.read().gaps(&range).next()
     }
diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 26b7764..708abae 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -266,6 +266,11 @@ where
                 self.seek(stream, position, None).await?;
             }
         }
+        if self.downloaded.get(position).is_some() {
+            // Nothing may be written before the reader needs to know about this
+            self.requested_position.clear();
+            self.position_reached.notify_position_reached();
+        }
         Ok(())
     }
 
@@ -322,6 +327,7 @@ where
             self.downloaded.add(start_position..stream_position);
             debug!("prefetch complete");
             self.prefetch_complete = true;
+            self.check_requested_position(stream_position);
         }
 
         self.report_prefetch_progress(stream, stream_position, download_start, written);
@@ -422,19 +428,7 @@ where
                 self.downloaded.add(position..new_position);
             }
 
-            if let Some(requested) = self.requested_position.get() {
-                debug!(
-                    requested_position = requested,
-                    current_position = new_position,
-                    "received requested position"
-                );
-
-                if new_position >= requested {
-                    debug!("notifying position reached");
-                    self.requested_position.clear();
-                    self.position_reached.notify_position_reached();
-                }
-            }
+            self.check_requested_position(new_position);
             if new_written == 0 {
                 // We're not able to write any data, so we need to wait for space to be available
                 debug!("waiting for next read");
@@ -452,6 +446,28 @@ where
         Ok(new_position)
     }
 
+    fn check_requested_position(&self, new_position: u64) {
+        if let Some(requested) = self.requested_position.get() {
+            debug!(
+                requested_position = requested,
+                current_position = new_position,
+                "received requested position"
+            );
+
+            // If we've just connected two downloaded ranges, everything up to the end of the second
+            // one is available
+            let end_position = self
+                .downloaded
+                .get(new_position.saturating_sub(1))
+                .map_or(new_position, |range| range.end.max(new_position));
+            if end_position >= requested {
+                debug!("notifying position reached");
+                self.requested_position.clear();
+                self.position_reached.notify_position_reached();
+            }
+        }
+    }
+
     fn should_seek(&mut self, stream: &S, position: u64) -> io::Result<bool> {
         if !stream.supports_seek() {
             warn!("Attempting to seek, but it's unsupported. Waiting for stream to catch up.");
-- 
2.43.0


From 54b998a44230364658c0ef51a8451e8edd1139b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 06/27] fix: a seek request is dropped if an earlier one is
 still queued

The reader would then wait for a position that nothing is heading to.
---
 crates/stream-download/src/source/handle.rs | 15 ++++-----------
 crates/stream-download/src/source/mod.rs    | 17 +++++++++++------
 2 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/crates/stream-download/src/source/handle.rs b/crates/stream-download/src/source/handle.rs
index 2162de9..3593c31 100644
--- a/crates/stream-download/src/source/handle.rs
+++ b/crates/stream-download/src/source/handle.rs
@@ -7,9 +7,8 @@ use std::time::Instant;
 
 use parking_lot::{Condvar, Mutex, RwLock};
 use rangemap::RangeSet;
-use tokio::sync::mpsc::error::TrySendError;
 use tokio::sync::{Notify, mpsc};
-use tracing::{debug, error};
+use tracing::debug;
 
 #[derive(Debug, Clone)]
 pub(crate) struct SourceHandle {
@@ -18,7 +17,7 @@ pub(crate) struct SourceHandle {
     pub(super) requested_position: RequestedPosition,
     pub(super) position_reached: PositionReached,
     pub(super) content_length: Option<u64>,
-    pub(super) seek_tx: mpsc::Sender<u64>,
+    pub(super) seek_tx: mpsc::UnboundedSender<u64>,
     pub(super) notify_read: NotifyRead,
 }
 
@@ -92,14 +91,8 @@ impl SourceHandle {
     }
 
     fn request_seek(&self, position: u64) {
-        self.seek_tx
-            .try_send(position)
-            .inspect_err(|e| {
-                if let TrySendError::Full(_) = e {
-                    error!("Sent multiple seek requests without waiting");
-                }
-            })
-            .ok();
+        // This can only fail if the download task has already exited
+        self.seek_tx.send(position).ok();
     }
 }
 
diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 708abae..5b40ac6 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -120,8 +120,8 @@ pub(crate) struct Source<S: SourceStream, W: StorageWriter> {
     position_reached: PositionReached,
     notify_read: NotifyRead,
     content_length: Option<u64>,
-    seek_tx: mpsc::Sender<u64>,
-    seek_rx: mpsc::Receiver<u64>,
+    seek_tx: mpsc::UnboundedSender<u64>,
+    seek_rx: mpsc::UnboundedReceiver<u64>,
     prefetch_bytes: u64,
     batch_write_size: usize,
     retry_timeout: Duration,
@@ -144,9 +144,9 @@ where
         settings: Settings<S>,
         cancellation_token: CancellationToken,
     ) -> Self {
-        // buffer size of 1 is fine here because we wait for the position to update after we send
-        // each request
-        let (seek_tx, seek_rx) = mpsc::channel(1);
+        // The reader may not wait for the download task to receive a request if the position is
+        // reached by other means, so there can be several outstanding requests
+        let (seek_tx, seek_rx) = mpsc::unbounded_channel();
         Self {
             writer,
             downloaded: Downloaded::default(),
@@ -204,7 +204,12 @@ where
             tokio::select! {
                 position = self.seek_rx.recv() => {
                     // seek_tx can't be dropped here since we keep a reference in this struct
-                    self.handle_seek(stream, position.expect("seek_tx dropped")).await?;
+                    let mut position = position.expect("seek_tx dropped");
+                    // Only the latest request is relevant
+                    while let Ok(latest) = self.seek_rx.try_recv() {
+                        position = latest;
+                    }
+                    self.handle_seek(stream, position).await?;
                 },
                 bytes = next_chunk => {
                     let Ok(bytes) = bytes else {
-- 
2.43.0


From ffaf31b0fee0b5821b868b9722662fb08b09fe84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 07/27] fix: seeking back requests an inverted range

The gap to download was searched from the lower one of the current and the
requested position, so the range sent to the source could end before it
started. Search from the requested position. Restart the prefetch only if
the download actually moves and drop bytes left over from the old position.
---
 crates/stream-download/src/lib.rs           |  7 +++
 crates/stream-download/src/source/handle.rs |  7 ++-
 crates/stream-download/src/source/mod.rs    | 48 ++++++++++++++-------
 3 files changed, 46 insertions(+), 16 deletions(-)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index a27b608..add7975 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -633,6 +633,13 @@ impl<P: StorageProvider> Seek for StreamDownload<P> {
                 .inspect_err(|p| debug!(position = format!("{p:?}"), "returning seek position"));
         }
 
+        if self.content_length == Some(absolute_seek_position) {
+            debug!("seeking to the end of the stream, nothing to download");
+            return self
+                .output_reader
+                .seek(SeekFrom::Start(absolute_seek_position));
+        }
+
         self.handle.seek(absolute_seek_position);
         self.check_for_failure()?;
         debug!("reached seek position");
diff --git a/crates/stream-download/src/source/handle.rs b/crates/stream-download/src/source/handle.rs
index 3593c31..f38d07c 100644
--- a/crates/stream-download/src/source/handle.rs
+++ b/crates/stream-download/src/source/handle.rs
@@ -197,7 +197,12 @@ impl Downloaded {
     }
 
     pub(super) fn next_gap(&self, range: Range<u64>) -> Option<Range<u64>> {
-        self.0.read().gaps(&range).next()
+        // explicit check here prevents panic
+        if range.end > range.start {
+            self.0.read().gaps(&range).next()
+        } else {
+            None
+        }
     }
 }
 
diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 5b40ac6..99fe6bc 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -242,33 +242,39 @@ where
         if self.should_seek(stream, position)? {
             debug!("seek position not yet downloaded");
             let current_stream_position = self.writer.stream_position()?;
-            if self.prefetch_complete {
-                debug!("re-starting prefetch");
-                self.prefetch_start_position = position;
-                self.prefetch_complete = false;
-            } else {
+            let restart_prefetch = self.prefetch_complete;
+            if !self.prefetch_complete {
                 debug!("seeking during prefetch, ending prefetch early");
                 self.downloaded
                     .add(self.prefetch_start_position..current_stream_position);
                 self.prefetch_complete = true;
             }
             if let Some(content_length) = self.content_length {
-                // Get the minimum possible start position to ensure we capture the entire range
-                let min_start_position = current_stream_position.min(position);
                 debug!(
-                    start = min_start_position,
+                    start = position,
                     end = content_length,
                     "checking for seek range",
                 );
-                if let Some(gap) = self.downloaded.next_gap(min_start_position..content_length) {
-                    // Gap start may be too low if we're seeking forward, so check it against the
-                    // position
-                    let seek_start = gap.start.max(position);
-                    debug!(seek_start, seek_end = gap.end, "requesting seek range");
-                    self.seek(stream, seek_start, Some(gap.end)).await?;
+                let gap = if position < content_length {
+                    self.downloaded.next_gap(position..content_length)
+                } else {
+                    // There's nothing to download at the end, but the rest may still be missing
+                    self.downloaded
+                        .next_gap(0..content_length)
+                        .map(|_| content_length..content_length)
+                };
+                if let Some(gap) = gap {
+                    debug!(
+                        seek_start = gap.start,
+                        seek_end = gap.end,
+                        "requesting seek range"
+                    );
+                    self.seek(stream, gap.start, Some(gap.end)).await?;
+                    self.start_prefetch(restart_prefetch, gap.start);
                 }
             } else {
                 self.seek(stream, position, None).await?;
+                self.start_prefetch(restart_prefetch, position);
             }
         }
         if self.downloaded.get(position).is_some() {
@@ -279,6 +285,14 @@ where
         Ok(())
     }
 
+    fn start_prefetch(&mut self, restart_prefetch: bool, position: u64) {
+        if restart_prefetch {
+            debug!("re-starting prefetch");
+            self.prefetch_start_position = position;
+            self.prefetch_complete = false;
+        }
+    }
+
     async fn handle_reconnect(&mut self, stream: &mut S) -> io::Result<()> {
         warn!("timed out reading next chunk, retrying");
         let pos = self.writer.stream_position()?;
@@ -310,6 +324,7 @@ where
             self.writer.flush()?;
             let position = self.writer.stream_position()?;
             self.downloaded.add(start_position..position);
+            self.check_requested_position(position);
 
             return self.finish_or_find_next_gap(stream).await;
         };
@@ -479,7 +494,8 @@ where
             return Ok(false);
         }
         Ok(if let Some(range) = self.downloaded.get(position) {
-            !range.contains(&self.writer.stream_position()?)
+            // If the writer is at the end of the range, it's about to extend it
+            !(range.start..=range.end).contains(&self.writer.stream_position()?)
         } else {
             true
         })
@@ -487,6 +503,8 @@ where
 
     async fn seek(&mut self, stream: &mut S, start: u64, end: Option<u64>) -> io::Result<()> {
         stream.seek_range(start, end).await?;
+        // These belong to the position we're moving away from
+        self.remaining_bytes = None;
         self.writer.seek(SeekFrom::Start(start))?;
         Ok(())
     }
-- 
2.43.0


From 41acc08346dd5018e1444be61db332c0236cc744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:47 +0000
Subject: [PATCH 08/27] fix: bytes that didn't fit during the prefetch are held
 back

They were only written along with the next chunk, so a reader could wait
for bytes that had already arrived, and a reconnect in between resumed from
the wrong position and duplicated them.
---
 crates/stream-download/src/source/mod.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 99fe6bc..bb0ba47 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -198,6 +198,14 @@ where
         let download_start = std::time::Instant::now();
 
         loop {
+            // These bytes are already here, don't wait for the next chunk to make them available
+            if self.prefetch_complete
+                && self.seek_rx.is_empty()
+                && let Some(remaining) = self.remaining_bytes.take()
+            {
+                self.write_chunk(stream, remaining, download_start).await?;
+                continue;
+            }
             // Some streams may get stuck if the connection has a hiccup while waiting for the next
             // chunk. Forcing the client to abort and retry may help in these cases.
             let next_chunk = timeout(self.retry_timeout, stream.next());
@@ -421,13 +429,22 @@ where
                 return self.finish_or_find_next_gap(stream).await;
             }
         };
-        let bytes_len = bytes.len();
-        let new_position = self.write(bytes).await?;
-        self.report_downloading_progress(stream, new_position, download_start, bytes_len)?;
+        self.write_chunk(stream, bytes, download_start).await?;
 
         Ok(DownloadAction::Continue)
     }
 
+    async fn write_chunk(
+        &mut self,
+        stream: &S,
+        bytes: Bytes,
+        download_start: Instant,
+    ) -> io::Result<()> {
+        let bytes_len = bytes.len();
+        let new_position = self.write(bytes).await?;
+        self.report_downloading_progress(stream, new_position, download_start, bytes_len)
+    }
+
     async fn write(&mut self, bytes: Bytes) -> io::Result<u64> {
         let mut written = 0;
         let position = self.writer.stream_position()?;
-- 
2.43.0


From 8c9e6a1ea31630c75fa8c2e8c20ab2c5b1fd9928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:48 +0000
Subject: [PATCH 09/27] fix: reads larger than an adaptive storage's buffer
 block forever

The capacity of the bounded buffer used for streams without a content length
wasn't reported, so oversized reads and seeks weren't rejected and waited
for data that could never fit.
---
 crates/stream-download/src/lib.rs              |  2 +-
 crates/stream-download/src/storage/adaptive.rs | 13 +++++++++++++
 crates/stream-download/src/storage/mod.rs      |  7 +++++++
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index add7975..cc82863 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -396,7 +396,7 @@ impl<P: StorageProvider> StreamDownload<P> {
             .await
             .map_err(StreamInitializationError::StreamCreationFailure)?;
         let content_length = stream.content_length();
-        let storage_capacity = storage_provider.max_capacity();
+        let storage_capacity = storage_provider.max_capacity_for(content_length);
         let (reader, writer) = storage_provider
             .into_reader_writer(content_length)
             .map_err(StreamInitializationError::StorageCreationFailure)?;
diff --git a/crates/stream-download/src/storage/adaptive.rs b/crates/stream-download/src/storage/adaptive.rs
index 2da8418..dc05aa4 100644
--- a/crates/stream-download/src/storage/adaptive.rs
+++ b/crates/stream-download/src/storage/adaptive.rs
@@ -104,6 +104,19 @@ where
     type Reader = AdaptiveStorageReader<F::Reader, V::Reader>;
     type Writer = AdaptiveStorageWriter<F::Writer, V::Writer>;
 
+    fn max_capacity_for(&self, content_length: Option<u64>) -> Option<usize> {
+        match content_length {
+            None => Some(self.buffer_size.get()),
+            Some(length) => {
+                if u64::try_from(self.buffer_size.get()).is_ok_and(|buffer| length <= buffer) {
+                    self.fixed_storage.max_capacity_for(content_length)
+                } else {
+                    self.variable_storage.max_capacity_for(content_length)
+                }
+            }
+        }
+    }
+
     fn into_reader_writer(
         self,
         content_length: Option<u64>,
diff --git a/crates/stream-download/src/storage/mod.rs b/crates/stream-download/src/storage/mod.rs
index ea41bf5..cca109f 100644
--- a/crates/stream-download/src/storage/mod.rs
+++ b/crates/stream-download/src/storage/mod.rs
@@ -28,6 +28,13 @@ pub trait StorageProvider: Send {
     fn max_capacity(&self) -> Option<usize> {
         None
     }
+
+    /// Returns the maximum number of bytes this provider can hold at a time for a stream with the
+    /// given content length. This only needs to be implemented if the capacity depends on the
+    /// content length.
+    fn max_capacity_for(&self, #[expect(unused)] content_length: Option<u64>) -> Option<usize> {
+        self.max_capacity()
+    }
 }
 
 /// Trait used to read from a storage layer
-- 
2.43.0


From f93e285afdff9028f3684b2557b3c9ba9cc4e5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:15 +0000
Subject: [PATCH 10/27] fix: seeking in bounded storage deadlocks or loses data

- A download task waiting for space didn't respond to seeks.
- The reader only moved once the data was there, but there may be no space
  for it until the reader moves.
- After a seek, ranges that the circular buffer can't serve any more were
  still considered downloaded, and downloading a gap at the end moved the
  write position back behind data that wasn't read yet.

Only keep track of the contiguous section since the last seek.
---
 crates/stream-download/src/lib.rs           | 26 ++++++++++++++-------
 crates/stream-download/src/source/handle.rs |  6 +++++
 crates/stream-download/src/source/mod.rs    | 25 +++++++++++++++++++-
 3 files changed, 47 insertions(+), 10 deletions(-)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index cc82863..72cbd92 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -402,7 +402,13 @@ impl<P: StorageProvider> StreamDownload<P> {
             .map_err(StreamInitializationError::StorageCreationFailure)?;
         let cancellation_token = CancellationToken::new();
         let cancel_on_drop = settings.cancel_on_drop;
-        let mut source = Source::new(writer, content_length, settings, cancellation_token.clone());
+        let mut source = Source::new(
+            writer,
+            content_length,
+            storage_capacity.is_some(),
+            settings,
+            cancellation_token.clone(),
+        );
         let handle = source.source_handle();
 
         tokio::spawn({
@@ -633,20 +639,22 @@ impl<P: StorageProvider> Seek for StreamDownload<P> {
                 .inspect_err(|p| debug!(position = format!("{p:?}"), "returning seek position"));
         }
 
-        if self.content_length == Some(absolute_seek_position) {
+        // Move the reader first. If the storage has a limited size, there may not be any space to
+        // write the requested data while the reader is still at the previous position.
+        let position = self
+            .output_reader
+            .seek(SeekFrom::Start(absolute_seek_position))
+            .inspect_err(|p| debug!(position = format!("{p:?}"), "returning seek position"))?;
+
+        if self.storage_capacity.is_some() && self.content_length == Some(position) {
             debug!("seeking to the end of the stream, nothing to download");
-            return self
-                .output_reader
-                .seek(SeekFrom::Start(absolute_seek_position));
+            return Ok(position);
         }
 
         self.handle.seek(absolute_seek_position);
         self.check_for_failure()?;
         debug!("reached seek position");
-
-        self.output_reader
-            .seek(SeekFrom::Start(absolute_seek_position))
-            .inspect_err(|p| debug!(position = format!("{p:?}"), "returning seek position"))
+        Ok(position)
     }
 }
 
diff --git a/crates/stream-download/src/source/handle.rs b/crates/stream-download/src/source/handle.rs
index f38d07c..8c760f8 100644
--- a/crates/stream-download/src/source/handle.rs
+++ b/crates/stream-download/src/source/handle.rs
@@ -52,6 +52,8 @@ impl SourceHandle {
     pub(crate) fn seek(&self, seek_position: u64) {
         self.request_position(seek_position);
         self.request_seek(seek_position);
+        // The download task may be waiting for us to make space
+        self.notify_read.notify_waiting();
         debug!(
             requested_position = seek_position,
             "waiting for requested position"
@@ -188,6 +190,10 @@ impl Downloaded {
         }
     }
 
+    pub(super) fn clear(&self) {
+        self.0.write().clear();
+    }
+
     pub(super) fn get(&self, position: u64) -> Option<Range<u64>> {
         self.0.read().get(&position).cloned()
     }
diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index bb0ba47..63b4fde 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -120,6 +120,7 @@ pub(crate) struct Source<S: SourceStream, W: StorageWriter> {
     position_reached: PositionReached,
     notify_read: NotifyRead,
     content_length: Option<u64>,
+    bounded_storage: bool,
     seek_tx: mpsc::UnboundedSender<u64>,
     seek_rx: mpsc::UnboundedReceiver<u64>,
     prefetch_bytes: u64,
@@ -141,6 +142,7 @@ where
     pub(crate) fn new(
         writer: W,
         content_length: Option<u64>,
+        bounded_storage: bool,
         settings: Settings<S>,
         cancellation_token: CancellationToken,
     ) -> Self {
@@ -157,6 +159,7 @@ where
             seek_tx,
             seek_rx,
             content_length,
+            bounded_storage,
             prefetch_complete: settings.prefetch_bytes == 0,
             prefetch_bytes: settings.prefetch_bytes,
             batch_write_size: settings.batch_write_size,
@@ -257,6 +260,10 @@ where
                     .add(self.prefetch_start_position..current_stream_position);
                 self.prefetch_complete = true;
             }
+            if self.bounded_storage {
+                // Only a single contiguous section can be read from a circular buffer
+                self.downloaded.clear();
+            }
             if let Some(content_length) = self.content_length {
                 debug!(
                     start = position,
@@ -364,6 +371,8 @@ where
 
     async fn finish_or_find_next_gap(&mut self, stream: &mut S) -> io::Result<DownloadAction> {
         if stream.supports_seek()
+            // going back would overwrite newer data that may not have been read yet
+            && !self.bounded_storage
             && let Some(content_length) = self.content_length
         {
             let gap = self.downloaded.next_gap(0..content_length);
@@ -442,7 +451,16 @@ where
     ) -> io::Result<()> {
         let bytes_len = bytes.len();
         let new_position = self.write(bytes).await?;
-        self.report_downloading_progress(stream, new_position, download_start, bytes_len)
+        let unwritten = self.remaining_bytes.as_ref().map_or(0, Bytes::len);
+        if unwritten == bytes_len {
+            return Ok(());
+        }
+        self.report_downloading_progress(
+            stream,
+            new_position,
+            download_start,
+            bytes_len - unwritten,
+        )
     }
 
     async fn write(&mut self, bytes: Bytes) -> io::Result<u64> {
@@ -467,6 +485,11 @@ where
 
             self.check_requested_position(new_position);
             if new_written == 0 {
+                if !self.seek_rx.is_empty() {
+                    debug!("seek requested while waiting for the reader to make space");
+                    self.remaining_bytes = Some(bytes.slice(written..));
+                    return Ok(new_position);
+                }
                 // We're not able to write any data, so we need to wait for space to be available
                 debug!("waiting for next read");
                 self.notify_read.wait_for_read().await;
-- 
2.43.0


From 0d00eaad07ad556167c709f1c72a648130657fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:35 +0000
Subject: [PATCH 11/27] fix: cancellation is ignored while waiting for the
 reader or the source

A cancelled or dropped stream leaked its download task, and with it the
connection, if the storage was full or a seek or reconnect was pending.
---
 crates/stream-download/src/source/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 63b4fde..c57f4ea 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -174,7 +174,15 @@ where
 
     #[instrument(skip_all)]
     pub(crate) async fn download(&mut self, mut stream: S) {
-        let res = self.download_inner(&mut stream).await;
+        let cancellation_token = self.cancellation_token.clone();
+        // Everything must be interruptible since any step could wait on the network or the reader
+        let res = tokio::select! {
+            res = self.download_inner(&mut stream) => res,
+            () = cancellation_token.cancelled() => {
+                debug!("received cancellation request, interrupting download task");
+                Ok(StreamOutcome::CancelledByUser)
+            }
+        };
         let (res, stream_res) = match res {
             Ok(StreamOutcome::Completed) => (Ok(()), StreamOutcome::Completed),
             Ok(StreamOutcome::CancelledByUser) => (
-- 
2.43.0


From 4c65783edb8884996ccd28f1b4b242baa91d01b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:35 +0000
Subject: [PATCH 12/27] fix: an empty chunk panics the download task

---
 crates/stream-download/src/source/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index c57f4ea..fc6a741 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -420,6 +420,7 @@ where
         download_start: Instant,
     ) -> io::Result<DownloadAction> {
         let bytes = match bytes.transpose() {
+            Ok(Some(bytes)) if bytes.is_empty() => return Ok(DownloadAction::Continue),
             Ok(bytes) => bytes,
             Err(e) => {
                 error!("Error fetching chunk from stream: {e:?}");
-- 
2.43.0


From e0191e71a070679baac297527dc37f8101e6f9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:37 +0000
Subject: [PATCH 13/27] fix: on_reconnect is called if the reconnect failed

---
 crates/stream-download/src/source/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index fc6a741..c23b4cf 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -322,8 +322,10 @@ where
         // We already know there's a network issue if we're attempting a reconnect.
         // A retry policy on the client may cause an exponential backoff to be triggered here, so
         // we'll cap the reconnect time to prevent additional delays between reconnect attempts.
-        let reconnect_pos = tokio::time::timeout(self.retry_timeout, stream.reconnect(pos)).await;
-        if reconnect_pos
+        let reconnect_res = tokio::time::timeout(self.retry_timeout, stream.reconnect(pos)).await;
+        if reconnect_res
+            .map_err(io::Error::from)
+            .flatten()
             .inspect_err(|e| warn!("error attempting to reconnect: {e:?}"))
             .is_ok()
             && let Some(on_reconnect) = &mut self.on_reconnect
-- 
2.43.0


From 20c266284b2f3e2cf512555ec21244a5d4af850e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:49 +0000
Subject: [PATCH 14/27] fix: progress during the prefetch after a seek claims
 everything before it

---
 crates/stream-download/src/source/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index c23b4cf..8876f86 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -581,7 +581,7 @@ where
             stream,
             StreamState {
                 current_position: stream_position,
-                current_chunk: (0..stream_position),
+                current_chunk: (self.prefetch_start_position..stream_position),
                 elapsed: download_start.elapsed(),
                 phase: StreamPhase::Prefetching {
                     target: self.prefetch_bytes,
-- 
2.43.0


From 770dcc5b2eb95526f410265e03b581870bf8b5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:51 +0000
Subject: [PATCH 15/27] fix: readers wait forever if the download task panics
 or is aborted

---
 crates/stream-download/src/lib.rs           |  4 +++-
 crates/stream-download/src/source/handle.rs |  4 ++++
 crates/stream-download/src/source/mod.rs    | 10 ++++++++++
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index 72cbd92..8bba1aa 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -413,9 +413,11 @@ impl<P: StorageProvider> StreamDownload<P> {
 
         tokio::spawn({
             let cancellation_token = cancellation_token.clone();
+            // Cancels the token even if the task doesn't run to completion
+            let drop_guard = cancellation_token.drop_guard();
             async move {
                 source.download(stream).await;
-                cancellation_token.cancel();
+                drop(drop_guard);
                 debug!("download task finished");
             }
         });
diff --git a/crates/stream-download/src/source/handle.rs b/crates/stream-download/src/source/handle.rs
index 8c760f8..52d0041 100644
--- a/crates/stream-download/src/source/handle.rs
+++ b/crates/stream-download/src/source/handle.rs
@@ -155,6 +155,10 @@ impl PositionReached {
         cvar.notify_all();
     }
 
+    pub(super) fn is_stream_done(&self) -> bool {
+        self.0.0.lock().stream_done
+    }
+
     /// Returns true if the stream is done, meaning there will be no more notifications.
     fn wait_for_position_reached(&self) -> bool {
         let (mutex, cvar) = self.0.as_ref();
diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 8876f86..465ddae 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -641,3 +641,13 @@ where
         }
     }
 }
+
+impl<S: SourceStream, W: StorageWriter> Drop for Source<S, W> {
+    fn drop(&mut self) {
+        // If the task panicked or the runtime was shut down, nothing else will wake up the reader
+        if !self.position_reached.is_stream_done() {
+            self.download_status.set_failed();
+            self.position_reached.notify_stream_done();
+        }
+    }
+}
-- 
2.43.0


From 58d11206e7c8ff3d6fe36766e18f4ac25cea7ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:11 +0000
Subject: [PATCH 16/27] fix: wait_for_completion returns before the task
 completes when cancelled

It's meant to be used to ensure that a subprocess has exited, but it only
waited for the cancellation to be requested.
---
 crates/stream-download/src/lib.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index 8bba1aa..64d6463 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -65,6 +65,7 @@ pub struct StreamDownload<P: StorageProvider> {
     output_reader: P::Reader,
     handle: SourceHandle,
     download_task_cancellation_token: CancellationToken,
+    download_task_finished: CancellationToken,
     cancel_on_drop: bool,
     content_length: Option<u64>,
     storage_capacity: Option<usize>,
@@ -373,7 +374,7 @@ impl<P: StorageProvider> StreamDownload<P> {
     /// the stream remotely.
     pub fn handle(&self) -> StreamHandle {
         StreamHandle {
-            finished: self.download_task_cancellation_token.clone(),
+            finished: self.download_task_finished.clone(),
         }
     }
 
@@ -401,6 +402,8 @@ impl<P: StorageProvider> StreamDownload<P> {
             .into_reader_writer(content_length)
             .map_err(StreamInitializationError::StorageCreationFailure)?;
         let cancellation_token = CancellationToken::new();
+        // Separate from the cancellation token because cancellation isn't immediate
+        let finished = CancellationToken::new();
         let cancel_on_drop = settings.cancel_on_drop;
         let mut source = Source::new(
             writer,
@@ -413,11 +416,14 @@ impl<P: StorageProvider> StreamDownload<P> {
 
         tokio::spawn({
             let cancellation_token = cancellation_token.clone();
-            // Cancels the token even if the task doesn't run to completion
-            let drop_guard = cancellation_token.drop_guard();
+            // Cancels the tokens even if the task doesn't run to completion
+            let drop_guards = (
+                cancellation_token.drop_guard(),
+                finished.clone().drop_guard(),
+            );
             async move {
                 source.download(stream).await;
-                drop(drop_guard);
+                drop(drop_guards);
                 debug!("download task finished");
             }
         });
@@ -426,6 +432,7 @@ impl<P: StorageProvider> StreamDownload<P> {
             output_reader: reader,
             handle,
             download_task_cancellation_token: cancellation_token,
+            download_task_finished: finished,
             cancel_on_drop,
             content_length,
             storage_capacity,
-- 
2.43.0


From 6e0d3c05a06335a350d2f16c2fd88ecc9633c128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:43 +0000
Subject: [PATCH 17/27] fix: sections skipped by a seek are never downloaded if
 the length is unknown

Reading through them returned zeroes (or blocked), even though the download
was reported as complete.
---
 crates/stream-download/src/source/handle.rs | 6 +++++-
 crates/stream-download/src/source/mod.rs    | 8 ++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/stream-download/src/source/handle.rs b/crates/stream-download/src/source/handle.rs
index 52d0041..2c356f7 100644
--- a/crates/stream-download/src/source/handle.rs
+++ b/crates/stream-download/src/source/handle.rs
@@ -202,8 +202,12 @@ impl Downloaded {
         self.0.read().get(&position).cloned()
     }
 
+    pub(super) fn end(&self) -> u64 {
+        self.0.read().last().map_or(0, |last| last.end)
+    }
+
     fn has_data_after(&self, position: u64) -> bool {
-        self.0.read().last().is_some_and(|last| last.end > position)
+        self.end() > position
     }
 
     pub(super) fn next_gap(&self, range: Range<u64>) -> Option<Range<u64>> {
diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 465ddae..170cfcd 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -383,9 +383,13 @@ where
         if stream.supports_seek()
             // going back would overwrite newer data that may not have been read yet
             && !self.bounded_storage
-            && let Some(content_length) = self.content_length
         {
-            let gap = self.downloaded.next_gap(0..content_length);
+            let content_end = match self.content_length {
+                Some(content_length) => content_length,
+                // We just reached the end, so the length is known now
+                None => (self.writer.stream_position()?).max(self.downloaded.end()),
+            };
+            let gap = self.downloaded.next_gap(0..content_end);
             if let Some(gap) = gap {
                 debug!(
                     missing = format!("{gap:?}"),
-- 
2.43.0


From 3e8bfce653c8def2039c3a55095d0174afe6cd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:44 +0000
Subject: [PATCH 18/27] fix: endless requests if the source ends before its
 content length

If requesting the missing part didn't yield any data, the same request was
repeated forever without any delay.
---
 crates/stream-download/src/source/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 170cfcd..ff3a623 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -6,6 +6,7 @@ use std::error::Error;
 use std::fmt::Debug;
 use std::future;
 use std::io::{self, SeekFrom};
+use std::ops::Range;
 use std::time::{Duration, Instant};
 
 use bytes::{BufMut, Bytes, BytesMut};
@@ -131,6 +132,7 @@ pub(crate) struct Source<S: SourceStream, W: StorageWriter> {
     prefetch_complete: bool,
     prefetch_start_position: u64,
     remaining_bytes: Option<Bytes>,
+    last_requested_gap: Option<Range<u64>>,
     cancellation_token: CancellationToken,
 }
 
@@ -168,6 +170,7 @@ where
             on_reconnect: settings.on_reconnect,
             prefetch_start_position: 0,
             remaining_bytes: None,
+            last_requested_gap: None,
             cancellation_token,
         }
     }
@@ -391,11 +394,19 @@ where
             };
             let gap = self.downloaded.next_gap(0..content_end);
             if let Some(gap) = gap {
+                if self.last_requested_gap.as_ref() == Some(&gap) {
+                    // Requesting it again won't help
+                    return Err(io::Error::new(
+                        io::ErrorKind::UnexpectedEof,
+                        format!("stream ended without any data for {gap:?}"),
+                    ));
+                }
                 debug!(
                     missing = format!("{gap:?}"),
                     "downloading missing stream chunk"
                 );
                 self.seek(stream, gap.start, Some(gap.end)).await?;
+                self.last_requested_gap = Some(gap);
                 return Ok(DownloadAction::Continue);
             }
         }
@@ -560,6 +571,7 @@ where
         stream.seek_range(start, end).await?;
         // These belong to the position we're moving away from
         self.remaining_bytes = None;
+        self.last_requested_gap = None;
         self.writer.seek(SeekFrom::Start(start))?;
         Ok(())
     }
-- 
2.43.0


From 3c9c1b2acb966d1b33e6705266ea86f0ee4c68aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 19/27] fix: content that ends with an error is reported as
 complete

If the source ended after an error, e.g. when an HTTP connection broke, and
the rest couldn't be requested separately, the truncated content looked like
a regular end of file. Bounded storage also continues with a new request now,
as the other ones do, since that doesn't require going back.
---
 crates/stream-download/src/source/mod.rs | 26 +++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index ff3a623..2c64790 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -133,6 +133,7 @@ pub(crate) struct Source<S: SourceStream, W: StorageWriter> {
     prefetch_start_position: u64,
     remaining_bytes: Option<Bytes>,
     last_requested_gap: Option<Range<u64>>,
+    chunk_error: Option<String>,
     cancellation_token: CancellationToken,
 }
 
@@ -171,6 +172,7 @@ where
             prefetch_start_position: 0,
             remaining_bytes: None,
             last_requested_gap: None,
+            chunk_error: None,
             cancellation_token,
         }
     }
@@ -383,16 +385,25 @@ where
     }
 
     async fn finish_or_find_next_gap(&mut self, stream: &mut S) -> io::Result<DownloadAction> {
-        if stream.supports_seek()
-            // going back would overwrite newer data that may not have been read yet
-            && !self.bounded_storage
+        let position = self.writer.stream_position()?;
+        let can_recover = stream.supports_seek() && self.content_length.is_some();
+        if let Some(e) = self.chunk_error.take()
+            && !can_recover
+            && self.content_length.is_none_or(|len| position < len)
         {
+            // The stream ended because of the error, so there may be more content
+            return Err(io::Error::other(format!("stream ended early: {e}")));
+        }
+        if stream.supports_seek() {
+            // Going back would overwrite newer data that may not have been read yet if the storage
+            // is bounded
+            let start = if self.bounded_storage { position } else { 0 };
             let content_end = match self.content_length {
                 Some(content_length) => content_length,
                 // We just reached the end, so the length is known now
-                None => (self.writer.stream_position()?).max(self.downloaded.end()),
+                None => position.max(self.downloaded.end()),
             };
-            let gap = self.downloaded.next_gap(0..content_end);
+            let gap = self.downloaded.next_gap(start..content_end);
             if let Some(gap) = gap {
                 if self.last_requested_gap.as_ref() == Some(&gap) {
                     // Requesting it again won't help
@@ -441,9 +452,13 @@ where
             Ok(bytes) => bytes,
             Err(e) => {
                 error!("Error fetching chunk from stream: {e:?}");
+                self.chunk_error = Some(format!("{e:?}"));
                 return Ok(DownloadAction::Continue);
             }
         };
+        if bytes.is_some() {
+            self.chunk_error = None;
+        }
 
         if !self.prefetch_complete {
             return self
@@ -572,6 +587,7 @@ where
         // These belong to the position we're moving away from
         self.remaining_bytes = None;
         self.last_requested_gap = None;
+        self.chunk_error = None;
         self.writer.seek(SeekFrom::Start(start))?;
         Ok(())
     }
-- 
2.43.0


From 3f8aefc44926383bf591210be57152f1ab703302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:51 +0000
Subject: [PATCH 20/27] fix: error pages are used as content after an HTTP
 reconnect

---
 crates/stream-download/src/http/mod.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/crates/stream-download/src/http/mod.rs b/crates/stream-download/src/http/mod.rs
index 07f2daf..293e1d9 100644
--- a/crates/stream-download/src/http/mod.rs
+++ b/crates/stream-download/src/http/mod.rs
@@ -276,6 +276,17 @@ impl<C: Client> HttpStream<C> {
     }
 }
 
+async fn into_io_result<R: ClientResponse>(response: R, url: &impl Display) -> io::Result<R> {
+    match response.into_result() {
+        Ok(response) => Ok(response),
+        Err(e) => {
+            let error = e.decode_error().await;
+            Err(io::Error::other(error))
+                .wrap_err(&format!("error getting HTTP response from {url}"))
+        }
+    }
+}
+
 impl<C: Client> Stream for HttpStream<C> {
     type Item = Result<Bytes, <<C as Client>::Response as ClientResponse>::StreamError>;
 
@@ -325,16 +336,7 @@ impl<C: Client> SourceStream for HttpStream<C> {
             "HTTP request finished"
         );
 
-        let response = match response.into_result() {
-            Ok(response) => Ok(response),
-            Err(e) => {
-                let error = e.decode_error().await;
-                Err(io::Error::other(error)).wrap_err(&format!(
-                    "error getting HTTP range response from {}",
-                    self.url
-                ))
-            }
-        }?;
+        let response = into_io_result(response, &self.url).await?;
         self.stream = Box::new(response.stream());
         debug!("done seeking");
         Ok(())
@@ -350,6 +352,7 @@ impl<C: Client> SourceStream for HttpStream<C> {
                 .await
                 .map_err(|e| io::Error::other(e.to_string()))
                 .wrap_err(&format!("error sending HTTP request to {}", self.url))?;
+            let response = into_io_result(response, &self.url).await?;
             self.stream = Box::new(response.stream());
             Ok(())
         }
-- 
2.43.0


From 7b9c46ceb0fda9e0ea8e653a5e0f89356467454a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:15 +0000
Subject: [PATCH 21/27] fix: content is corrupted if an HTTP server doesn't
 honor a range request

The whole content was written at the requested position. After a stall,
finite content was requested from the start again without even trying to
send a range if the server didn't advertise support for it.
---
 crates/stream-download/src/http/mod.rs | 37 +++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/crates/stream-download/src/http/mod.rs b/crates/stream-download/src/http/mod.rs
index 293e1d9..2de0808 100644
--- a/crates/stream-download/src/http/mod.rs
+++ b/crates/stream-download/src/http/mod.rs
@@ -274,6 +274,38 @@ impl<C: Client> HttpStream<C> {
             None => false,
         }
     }
+
+    /// Ensures the server didn't ignore the range request and send something else instead.
+    fn check_range_response(
+        &self,
+        response: &C::Response,
+        start: u64,
+        end: Option<u64>,
+    ) -> io::Result<()> {
+        let headers = response.headers();
+        let matches_request = if let Some(content_range) = headers.header("Content-Range") {
+            // ex: bytes 200-400/1000
+            content_range
+                .strip_prefix("bytes ")
+                .and_then(|range| range.split('-').next())
+                .and_then(|range_start| range_start.trim().parse().ok())
+                == Some(start)
+        } else if let Some(content_length) = self.content_length {
+            let range_length = end.unwrap_or(content_length).checked_sub(start);
+            start == 0 || (range_length.is_some() && response.content_length() == range_length)
+        } else {
+            // We can't tell, it may be a live stream that always starts from the present
+            true
+        };
+        if matches_request {
+            Ok(())
+        } else {
+            Err(io::Error::other(format!(
+                "server did not return the requested range from {}",
+                self.url
+            )))
+        }
+    }
 }
 
 async fn into_io_result<R: ClientResponse>(response: R, url: &impl Display) -> io::Result<R> {
@@ -337,13 +369,16 @@ impl<C: Client> SourceStream for HttpStream<C> {
         );
 
         let response = into_io_result(response, &self.url).await?;
+        self.check_range_response(&response, start, end)?;
         self.stream = Box::new(response.stream());
         debug!("done seeking");
         Ok(())
     }
 
     async fn reconnect(&mut self, current_position: u64) -> Result<(), io::Error> {
-        if self.supports_range_request() {
+        // If the content is finite, starting over isn't useful unless that's what we need
+        if self.supports_range_request() || (self.content_length.is_some() && current_position > 0)
+        {
             self.seek_range(current_position, None).await
         } else {
             let response = self
-- 
2.43.0


From 9bf68f7d866ac2b40cc01569da4d5c7f28a835a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:32 +0000
Subject: [PATCH 22/27] fix: all but the last command of a pipeline are never
 killed or reaped

Cancelling a stream left the other processes running until they tried to
write to their closed output, and every exited process remained a zombie
until the parent exited.
---
 .../src/process/command_builder.rs            | 30 ++++++++++++-------
 crates/stream-download/src/process/mod.rs     | 21 +++++++++++--
 2 files changed, 37 insertions(+), 14 deletions(-)

diff --git a/crates/stream-download/src/process/command_builder.rs b/crates/stream-download/src/process/command_builder.rs
index 2102b11..94002b2 100644
--- a/crates/stream-download/src/process/command_builder.rs
+++ b/crates/stream-download/src/process/command_builder.rs
@@ -38,33 +38,41 @@ impl SpawnCommand for CommandBuilder {
         let last = self.commands.pop().expect("prevented by constructor");
         let mut prev_stdout = None;
         let mut stderr_files = Vec::new();
+        let mut upstream_handles = Vec::new();
 
         for command in self.commands {
-            let mut std_command = std::process::Command::new(command.program);
-            std_command
+            // Use tokio's command to ensure the process is reaped after it exits
+            let mut tokio_command = tokio::process::Command::new(command.program);
+            tokio_command
                 .args(command.args.clone())
-                .stdout(Stdio::piped());
+                .stdout(Stdio::piped())
+                .kill_on_drop(true);
             if let Some(handle) = command.stderr_handle {
-                std_command.stderr(handle);
+                tokio_command.stderr(handle);
             } else {
                 let (stdio, stderr_file) = stdio_to_tmp_file()?;
-                std_command.stderr(stdio);
+                tokio_command.stderr(stdio);
                 stderr_files.push(stderr_file);
             }
 
             #[cfg(target_os = "windows")]
             {
                 // CREATE_NO_WINDOW
-                use std::os::windows::process::CommandExt;
-                std_command.creation_flags(0x08000000);
+                tokio_command.creation_flags(0x08000000);
             }
 
             if let Some(prev_stdout) = prev_stdout.take() {
-                std_command.stdin(prev_stdout);
+                tokio_command.stdin(prev_stdout);
             }
-            let mut command_out = std_command.spawn().wrap_err("error spawning process")?;
-            prev_stdout = command_out.stdout.take();
+            let mut command_out = tokio_command.spawn().wrap_err("error spawning process")?;
+            prev_stdout = command_out
+                .stdout
+                .take()
+                .map(TryInto::<Stdio>::try_into)
+                .transpose()
+                .wrap_err("error converting process output")?;
+            upstream_handles.push(command_out);
         }
-        SpawnedCommand::new(last, prev_stdout, stderr_files)
+        SpawnedCommand::new(last, prev_stdout, stderr_files, upstream_handles)
     }
 }
diff --git a/crates/stream-download/src/process/mod.rs b/crates/stream-download/src/process/mod.rs
index 254b61e..923a1f6 100644
--- a/crates/stream-download/src/process/mod.rs
+++ b/crates/stream-download/src/process/mod.rs
@@ -19,7 +19,7 @@ use std::ffi::OsString;
 use std::io::{self, Read, Write};
 use std::mem;
 use std::pin::Pin;
-use std::process::{ChildStdout, Stdio};
+use std::process::Stdio;
 use std::task::Poll;
 
 use bytes::Bytes;
@@ -114,7 +114,7 @@ impl Command {
 
 impl SpawnCommand for Command {
     fn spawn(self) -> io::Result<SpawnedCommand> {
-        SpawnedCommand::new(self, None, Vec::new())
+        SpawnedCommand::new(self, None, Vec::new(), Vec::new())
     }
 }
 
@@ -122,14 +122,17 @@ impl SpawnCommand for Command {
 #[derive(Debug)]
 pub struct SpawnedCommand {
     child_handle: tokio::process::Child,
+    // Other commands in the pipeline. These are killed on drop.
+    upstream_handles: Vec<tokio::process::Child>,
     stderr_files: Vec<NamedTempFile>,
 }
 
 impl SpawnedCommand {
     fn new(
         command: Command,
-        prev_out: Option<ChildStdout>,
+        prev_out: Option<Stdio>,
         mut stderr_files: Vec<NamedTempFile>,
+        upstream_handles: Vec<tokio::process::Child>,
     ) -> Result<Self, io::Error> {
         let mut tokio_command = tokio::process::Command::new(command.program);
 
@@ -155,6 +158,7 @@ impl SpawnedCommand {
 
         Ok(Self {
             child_handle: tokio_command.spawn().wrap_err("error spawning process")?,
+            upstream_handles,
             stderr_files,
         })
     }
@@ -209,6 +213,8 @@ impl ProcessStreamParams {
 pub struct ProcessStream {
     stream: AsyncReadStream<tokio::process::ChildStdout>,
     child_handle: tokio::process::Child,
+    // Other commands in the pipeline. These are killed on drop.
+    upstream_handles: Vec<tokio::process::Child>,
     stderr_files: Vec<NamedTempFile>,
 }
 
@@ -258,6 +264,7 @@ impl SourceStream for ProcessStream {
                 content_length,
             ),
             child_handle: command.child_handle,
+            upstream_handles: command.upstream_handles,
             stderr_files: command.stderr_files,
         })
     }
@@ -285,6 +292,11 @@ impl SourceStream for ProcessStream {
     ) -> io::Result<()> {
         let check_command_error = if result.is_ok() {
             let wait_res = self.child_handle.wait().await?;
+            for mut upstream_handle in mem::take(&mut self.upstream_handles) {
+                // These may not be done yet. There's no need to wait for them or to kill them, but
+                // they need to be reaped eventually.
+                tokio::spawn(async move { upstream_handle.wait().await });
+            }
             let command_failed = !wait_res.success();
             if command_failed {
                 warn!("command exited with error code: {wait_res:?}");
@@ -293,6 +305,9 @@ impl SourceStream for ProcessStream {
         } else {
             debug!("killing child process");
             self.child_handle.kill().await?;
+            for upstream_handle in &mut self.upstream_handles {
+                upstream_handle.kill().await?;
+            }
             debug!("child process killed");
             // Don't need to check process for errors if the user explicitly cancelled the stream
             outcome == StreamOutcome::Completed
-- 
2.43.0


From ec9275515ab515c25e08bc19f5a29dbd2a7718a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:16 +0000
Subject: [PATCH 23/27] fix: reads report the end of the stream for data
 dropped from bounded storage

---
 crates/stream-download/src/source/handle.rs | 26 ++++++++++++++-------
 crates/stream-download/src/source/mod.rs    |  1 +
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/crates/stream-download/src/source/handle.rs b/crates/stream-download/src/source/handle.rs
index 2c356f7..1a5043a 100644
--- a/crates/stream-download/src/source/handle.rs
+++ b/crates/stream-download/src/source/handle.rs
@@ -2,7 +2,7 @@ use std::fmt::Debug;
 use std::ops::Range;
 use std::panic::AssertUnwindSafe;
 use std::sync::Arc;
-use std::sync::atomic::{AtomicBool, AtomicI64, Ordering, fence};
+use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering, fence};
 use std::time::Instant;
 
 use parking_lot::{Condvar, Mutex, RwLock};
@@ -26,7 +26,7 @@ impl SourceHandle {
         self.downloaded.get(position)
     }
 
-    /// Returns true if there is any downloaded data after the given position.
+    /// Returns true if the stream is known to have any data after the given position.
     pub(crate) fn has_data_after(&self, position: u64) -> bool {
         self.downloaded.has_data_after(position)
     }
@@ -184,36 +184,44 @@ impl PositionReached {
 }
 
 #[derive(Debug, Clone, Default)]
-pub(super) struct Downloaded(Arc<AssertUnwindSafe<RwLock<RangeSet<u64>>>>);
+pub(super) struct Downloaded {
+    ranges: Arc<AssertUnwindSafe<RwLock<RangeSet<u64>>>>,
+    stream_end: Arc<AtomicU64>,
+}
 
 impl Downloaded {
     pub(super) fn add(&self, range: Range<u64>) {
         // explicit check here prevents panic
         if range.end > range.start {
-            self.0.write().insert(range);
+            self.ranges.write().insert(range);
         }
     }
 
     pub(super) fn clear(&self) {
-        self.0.write().clear();
+        self.ranges.write().clear();
     }
 
     pub(super) fn get(&self, position: u64) -> Option<Range<u64>> {
-        self.0.read().get(&position).cloned()
+        self.ranges.read().get(&position).cloned()
     }
 
     pub(super) fn end(&self) -> u64 {
-        self.0.read().last().map_or(0, |last| last.end)
+        self.ranges.read().last().map_or(0, |last| last.end)
+    }
+
+    /// Stores where the stream ended since the ranges may not include everything before it.
+    pub(super) fn set_stream_end(&self, position: u64) {
+        self.stream_end.store(position, Ordering::SeqCst);
     }
 
     fn has_data_after(&self, position: u64) -> bool {
-        self.end() > position
+        self.end().max(self.stream_end.load(Ordering::SeqCst)) > position
     }
 
     pub(super) fn next_gap(&self, range: Range<u64>) -> Option<Range<u64>> {
         // explicit check here prevents panic
         if range.end > range.start {
-            self.0.read().gaps(&range).next()
+            self.ranges.read().gaps(&range).next()
         } else {
             None
         }
diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 2c64790..3bb0138 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -422,6 +422,7 @@ where
             }
         }
         self.writer.flush()?;
+        self.downloaded.set_stream_end(position);
         self.signal_download_complete();
         Ok(DownloadAction::Complete)
     }
-- 
2.43.0


From 9113539f05e3a70f2ea7a3ffc2f7cec30cae9333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 24/27] fix: content lengths that can't be allocated abort the
 process

---
 crates/stream-download/src/storage/memory.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/stream-download/src/storage/memory.rs b/crates/stream-download/src/storage/memory.rs
index c40617f..18601ab 100644
--- a/crates/stream-download/src/storage/memory.rs
+++ b/crates/stream-download/src/storage/memory.rs
@@ -31,6 +31,16 @@ impl StorageProvider for MemoryStorageProvider {
             .wrap_err(&format!(
                 "Requested buffer size of {initial_buffer_size} exceeds the maximum value"
             ))?;
+        // The content length isn't under our control, so report an error instead of aborting if it's
+        // larger than what can be allocated. `black_box` prevents the check from being optimized out.
+        let mut buffer_check = Vec::<u8>::new();
+        std::hint::black_box(&mut buffer_check)
+            .try_reserve_exact(initial_buffer_size)
+            .map_err(|e| io::Error::new(io::ErrorKind::OutOfMemory, e))
+            .wrap_err(&format!(
+                "Requested buffer size of {initial_buffer_size} can't be allocated"
+            ))?;
+        drop(std::hint::black_box(buffer_check));
 
         let inner = Arc::new(AssertUnwindSafe(RwLock::new(vec![0; initial_buffer_size])));
         let written = Arc::new(AtomicUsize::new(0));
-- 
2.43.0


From ef5fd16e366192ccaf22b2359bbb9ce782abea1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:22 +0000
Subject: [PATCH 25/27] fix: large prefetch sizes overflow after a seek

---
 crates/stream-download/src/source/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 3bb0138..d917d22 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -373,7 +373,7 @@ where
             );
             self.remaining_bytes = Some(bytes.slice(written..));
         }
-        if (stream_position >= start_position + self.prefetch_bytes) || partial_write {
+        if (stream_position >= start_position.saturating_add(self.prefetch_bytes)) || partial_write {
             self.downloaded.add(start_position..stream_position);
             debug!("prefetch complete");
             self.prefetch_complete = true;
-- 
2.43.0


From 71af93bb1d6d98823a625fdc9250f8435bed4993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:37 +0000
Subject: [PATCH 26/27] fix: seeking far ahead with memory storage aborts the
 process

---
 crates/stream-download/src/storage/memory.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/stream-download/src/storage/memory.rs b/crates/stream-download/src/storage/memory.rs
index 18601ab..1f36802 100644
--- a/crates/stream-download/src/storage/memory.rs
+++ b/crates/stream-download/src/storage/memory.rs
@@ -106,13 +106,21 @@ impl Write for MemoryStorage {
         }
         let mut inner = self.inner.write();
 
-        if self.position + buf.len() > inner.len() {
-            inner.resize(self.position + buf.len(), 0);
+        // The position may be anywhere after a seek
+        let end = self.position.checked_add(buf.len()).ok_or_else(|| {
+            io::Error::new(io::ErrorKind::InvalidInput, "write position overflows")
+        })?;
+        if end > inner.len() {
+            let additional = end - inner.len();
+            inner
+                .try_reserve(additional)
+                .map_err(|e| io::Error::new(io::ErrorKind::OutOfMemory, e))?;
+            inner.resize(end, 0);
         }
 
-        inner[self.position..self.position + buf.len()].copy_from_slice(buf);
+        inner[self.position..end].copy_from_slice(buf);
 
-        self.position += buf.len();
+        self.position = end;
         self.written.fetch_max(self.position, Ordering::SeqCst);
         Ok(buf.len())
     }
-- 
2.43.0


From 6edaeda526cfbd16592437eb793cb7ffe757f0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:29 +0000
Subject: [PATCH 27/27] fix: the download isn't resumed when a seek in bounded
 storage makes space

---
 crates/stream-download/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index 64d6463..9f0b4ba 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -645,7 +645,9 @@ impl<P: StorageProvider> Seek for StreamDownload<P> {
             return self
                 .output_reader
                 .seek(SeekFrom::Start(absolute_seek_position))
-                .inspect_err(|p| debug!(position = format!("{p:?}"), "returning seek position"));
+                .inspect_err(|p| debug!(position = format!("{p:?}"), "returning seek position"))
+                // Skipping data makes space for more
+                .inspect(|_| self.handle.notify_read());
         }
 
         // Move the reader first. If the storage has a limited size, there may not be any space to
-- 
2.43.0

